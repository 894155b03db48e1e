#include "engine.hpp"
int main(int argc, char** argv) { return vf::main(argc, argv); }
