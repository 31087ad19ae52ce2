// The part of C18 compiled with instrumentation of every memory access: the
// library and the operations of the threads.
#include "C18.h"
#include "ops.h"

static const std::vector<ops::Op>* const all = [] {
	auto* r = new std::vector<ops::Op>(ops::small());
	// same paths with other arguments
	for (const char* t : { "0.3", "9007199254740995", "16777219", "1e-340", "123456789012345678901234567890e-20" }) for (int fn : { 20, 21, 22, 23 }) r->push_back({ fn, 0, t, 0 });
	for (double d : { 0.3, 2.2250738585072014e-308, 123456789012345678.0 }) { r->push_back({ 0, ref::bits<double>(d), "", 0 }); r->push_back({ 2, ref::bits<double>(d), "", 0 }); }
	return r; }();
static const std::vector<ops::Op>& alphabet() { return *all; }

int op_count() { return int(alphabet().size()); }
void* make_bufs() { return new ops::Bufs(); }
std::string show_op(int i) { return ops::show(alphabet()[size_t(i)]); }
void run_op(int i, void* b, OpResult* out)
{
	static_assert(sizeof(ops::Result) <= sizeof(OpResult), "");
	const ops::Result r = ops::run(alphabet()[size_t(i)], *static_cast<ops::Bufs*>(b));
	std::memset(out, 0, sizeof *out);
	ops::Result z; z = r;
	std::memcpy(out->raw, &z.bits, sizeof z.bits); std::memcpy(out->raw + 8, &z.status, 4); std::memcpy(out->raw + 12, &z.used, 8); std::memcpy(out->raw + 20, &z.len, 4); std::memcpy(out->raw + 24, z.text, sizeof z.text);
}
std::string show_result(const OpResult& r)
{
	ops::Result z; std::memcpy(&z.bits, r.raw, 8); std::memcpy(&z.status, r.raw + 8, 4); std::memcpy(&z.used, r.raw + 12, 8); std::memcpy(&z.len, r.raw + 20, 4); std::memcpy(z.text, r.raw + 24, sizeof z.text);
	return z.show();
}
