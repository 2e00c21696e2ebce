#include "vt.hpp"
#include <stdex/langid.hpp>
extern "C" {
stdex::langid h_from(const char *tag) { return stdex::langid_from_rfc1766(tag); }
const char *h_to(stdex::langid id, const char *fallback) { return stdex::rfc1766_from_langid(id, fallback); }
bool h_ispunct(char c) { return stdex::ispunct(c); }
char h_tolower(char c) { return stdex::tolower(c); }
}
