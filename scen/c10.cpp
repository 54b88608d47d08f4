#define PRIVFREE
#include "c09.cpp"
