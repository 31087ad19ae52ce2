#pragma once
#include <cstdint>
#include <string>
// implemented in the instrumented part
struct OpResult { unsigned char raw[160]; };
int op_count();
void* make_bufs();
void run_op(int i, void* bufs, OpResult* out);
std::string show_op(int i);
std::string show_result(const OpResult& r);
// implemented by the scheduler
extern "C" void sched_point_external(int what);
