// Linked into replays that never generate an id.
#include <a0/uuid.h>
void a0_uuidv4(a0_uuid_t out) { (void)out; }
