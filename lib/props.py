"""Which machinery decides which property."""
import p_life, p_accum, p_async, p_mss, p_tools, p_val, p_batch

CHECKS = {}
for m in (p_life, p_accum, p_async, p_mss, p_tools, p_val, p_batch):
    CHECKS.update(m.CHECKS)
