#include "hashes.hpp"
#include <stdex/hash.hpp>
int main() { init(); huge<stdex::sha1_hash>("sha1"); while (more()) one<stdex::sha1_hash>(sha1, "sha1"); return finish(); }
