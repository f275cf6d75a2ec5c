// The command-line convolver, compiled unchanged; its main() becomes cli_main().
#define main cli_main
#include "cli/src/convolver.cpp"
