#include "mc.h"
int main(int argc, char** argv) { return mc::main(argc, argv); }
