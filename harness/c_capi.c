#include <hogl/c-api/post.h>
#define PRE c
#define FN(x) c_##x
#include "c_posts.h"
