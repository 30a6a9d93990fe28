#include "sim.hpp"
int main(int c, char **v) { return sim::main(c, v); }
