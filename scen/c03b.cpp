#define C03_IMPL plainbuild
#include "c03_party.h"
namespace c03 { void party_b(int me) { plainbuild::party(me); } }
