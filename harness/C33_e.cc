#include "C33_parse.h"
template void parse_either<sc::microseconds>(Ctx&, bool);
template void parse_either<sc::nanoseconds>(Ctx&, bool);
