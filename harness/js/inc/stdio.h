#pragma once
#include <stdlib.h>
