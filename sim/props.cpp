#include "props.h"
static const PropDef table[] = {
#define X(id) {#id, prop##id},
PROPS(X)
#undef X
};
const PropDef* findProp(const char* id) {
    for (auto& p : table) if (!strcmp(p.id, id)) return &p;
    return nullptr;
}
