// the entry points of a copy of the library (p33.cc, p33_work.cc)
#ifndef HZ_P33_H
#define HZ_P33_H
#include <stdint.h>
struct ArrowSchema;
struct ArrowArray;
extern "C" {
uint64_t hzns_ops();
void hzns_run(uint64_t seed, uint64_t op, uint64_t* digest, int* err);
int hzns_make(uint64_t seed, struct ArrowSchema* schema, struct ArrowArray* array);
int hzns_use(uint64_t seed, struct ArrowSchema* schema, struct ArrowArray* array, uint64_t* digest);
}
#endif
