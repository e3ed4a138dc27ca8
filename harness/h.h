#pragma once
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "heclib.h"
#include "hecdss.h"
#include "hecdssInternal.h"
#include "zStructTransfer.h"
#include "zdssKeys.h"
#include "zdssVals.h"
#include "dsym.h"
