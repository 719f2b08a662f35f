#pragma once
#include "../../impl/yugawara.h"
