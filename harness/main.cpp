#include "monitor.hpp"
#ifdef MON_THREADS
static mon::Reg mixed("mixed", nullptr, 8);
#endif
int main(int argc, char** argv) { return mon::run(argc, argv); }
