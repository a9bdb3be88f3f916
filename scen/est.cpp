#include "est.hpp"
std::vector<const Kind*>& kinds() { static std::vector<const Kind*> k; return k; }
// registration order depends on link order: fix it by name
void sort_kinds() { auto& k = kinds(); std::sort(k.begin(), k.end(), [](const Kind* a, const Kind* b) { return std::string(a->name) < b->name; }); }
