#include "C33_parse.h"
template void parse_either<sc::seconds>(Ctx&, bool);
template void parse_either<sc::milliseconds>(Ctx&, bool);
