// One of the repository's programs, its main function under another name
#define main program_main
#include PROGRAM
