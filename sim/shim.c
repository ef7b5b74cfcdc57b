/* Compiled into every shared object that carries a copy of the code under test.
   Each copy gets its own standard streams, and the parameter-set lookup can be
   scaled down (smaller trees) by the simulator, through the code's own
   parameter initialisation. */
#include <stdio.h>
#include <stdint.h>
#include "params.h"
#include "xmss_core.h"

FILE *shim_stdin, *shim_stdout, *shim_stderr;

int real_xmss_parse_oid(xmss_params *params, const uint32_t oid);
int real_xmssmt_parse_oid(xmss_params *params, const uint32_t oid);
extern int sim_scale_params(void *params, uint32_t oid, int mt, int rc,
                            int (*init)(xmss_params *),
                            unsigned long long (*skb)(const xmss_params *));

int shim_xmss_parse_oid(xmss_params *params, const uint32_t oid)
{
    int rc = real_xmss_parse_oid(params, oid);
    return sim_scale_params(params, oid, 0, rc, xmss_xmssmt_initialize_params,
                            xmss_xmssmt_core_sk_bytes);
}

int shim_xmssmt_parse_oid(xmss_params *params, const uint32_t oid)
{
    int rc = real_xmssmt_parse_oid(params, oid);
    return sim_scale_params(params, oid, 1, rc, xmss_xmssmt_initialize_params,
                            xmss_xmssmt_core_sk_bytes);
}
