/* Debug builds only: besides the repository's own consistency checks, recompute the
   value of every row activity that the presolver relies on. */
#include "Activity.h"
#include "Bounds.h"
#include "Constraints.h"
#include "Matrix.h"
#include "State.h"
#include "Tags.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>

double actcheck_scale = 0; /* largest finite |coefficient * bound| of the input */

void __real_run_debugger(const Constraints *, bool);
void __wrap_run_debugger(const Constraints *k, bool finished)
{
    __real_run_debugger(k, finished);
    if (finished) return;
    for (size_t i = 0; i < k->m; i++)
    {
        if (HAS_TAG(k->row_tags[i], R_TAG_INACTIVE)) continue;
        const Activity *a = &k->state->activities[i];
        for (int side = 0; side < 2; side++)
        {
            if (side ? a->n_inf_max : a->n_inf_min) continue;
            double s = 0, mag = 1;
            for (int e = k->A->p[i].start; e < k->A->p[i].end; e++)
            {
                int j = k->A->i[e];
                if (HAS_TAG(k->col_tags[j], C_TAG_INACTIVE)) continue;
                double v = k->A->x[e], t = v * (((v > 0) == (side == 1)) ? k->bounds[j].ub : k->bounds[j].lb);
                s += t;
                mag += fabs(t);
            }
            double have = side ? a->max : a->min;
            if (!(fabs(have - s) <= 1e-5 * mag + 1e-8 * actcheck_scale))
            {
                fprintf(stderr, "row %zu: the %s activity is %.17g and should be %.17g\n", i, side ? "maximal" : "minimal", have, s);
                abort();
            }
        }
    }
}
