#pragma once
#include "absl/log/absl_log.h"
