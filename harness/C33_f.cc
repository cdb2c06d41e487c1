#include "C33_parse.h"
template void parse_either<sc::minutes>(Ctx&, bool);
template void parse_either<tenth>(Ctx&, bool);
