// Tables with an entry type and an allocator of the user's own.
#define PART 5
#include "hash.cpp"
