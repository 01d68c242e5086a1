#define SECOND
#include "both.cpp"
