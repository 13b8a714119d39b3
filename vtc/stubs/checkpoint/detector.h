#include <checkpoint/checkpoint.h>
