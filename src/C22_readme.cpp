// The examples of README.md.
#include <iostream>

#include "floaxie/ftoa.h"
#include "floaxie/atof.h"

using namespace std;
using namespace floaxie;

int main(int, char**)
{
	double pi = 0.1;
	char buffer[128];

	ftoa(pi, buffer);
	cout << "pi: " << pi << ", buffer: " << buffer << endl;

	char str[] = "0.1";
	char* str_end;
	pi = 0;

	pi = atof<double>(str, &str_end);
	cout << "pi: " << pi << ", str: " << str << ", str_end: " << str_end << endl;

	return !(pi == 0.1 && str_end == str + 3 && string(buffer) == "0.1");
}
