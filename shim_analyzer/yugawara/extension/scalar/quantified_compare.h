#pragma once
#include "../../../impl/extensions.h"
