// collision operators under generated parameters, shared by C18 and C19
#ifndef COLLLIB_H
#define COLLLIB_H
#include "common.h"
#include "collision/collision.h"
#include "util/checkpt/checkpt.h"
#include <pthread.h>
enum { OP_HS, OP_LAC, OP_TA, OP_BIN, OP_LANG, OP_HSF, OP_LACF, OP_UN, NOP };
static const char *OPN[NOP] = {"hard_sphere", "large_angle_coulomb", "takizuka_abe", "custom binary", "langevin", "hard_sphere_fluid", "large_angle_coulomb_fluid", "custom unary"};
static inline bool op_binary(int k) { return k <= OP_BIN; }
// everything registered between two points in time can be dropped again
static inline size_t reg_mark() { static int d; REGISTER_OBJECT(&d, NULL, NULL, NULL); size_t id = object_id(&d); UNREGISTER_OBJECT(&d); return id; }
static inline void reg_release(size_t a, bool do_free) { size_t b = reg_mark(); for (size_t k = a + 1; k < b; k++) { void *p = object_ptr(k); if (p) { UNREGISTER_OBJECT(p); if (do_free) free(p); } } }
static pthread_mutex_t coll_mx = PTHREAD_MUTEX_INITIALIZER;
#endif
