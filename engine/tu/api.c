/* every inline function of the public headers, used by the library or not */
#include <stdarg.h>
#include <stdio.h>
#include <stdint.h>
#include <gmp.h>
#include "pbc.h"
#include "pbc_fp.h"
#include "pbc_fieldquadratic.h"
#include "pbc_poly.h"
#include "pbc_curve.h"
