#include "dst.h"
using namespace dst;
static std::string setup() { return "trick.stop(2.0)\n"; }
static void fin(int why, int code) { probe(why_name(why)); }
static Reg r({"smoke", setup, fin, 100 * SEC, 5000000, "E01"});
