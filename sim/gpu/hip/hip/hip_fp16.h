#include "../../cuda/cuda_fp16.h"
