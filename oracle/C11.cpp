#include "hashes.hpp"
#include <stdex/hash.hpp>
int main() { init(); huge<stdex::md5_hash>("md5"); while (more()) one<stdex::md5_hash>(md5, "md5"); return finish(); }
