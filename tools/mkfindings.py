#!/usr/bin/env python3
"""Writes /verif/known-findings.json: defects found, all of them repaired. (Entries with a `match`
would suppress the violation that contains it; there are none.)"""
import json, os
FIXED = [
    ("C07", "baff7aa", "Defense::visitor_threshold(index) returned the difficulty factor of the level, not its visitor threshold"),
    ("C06", "3cb0cee", "with visitors between two thresholds the difficulty alternated between two levels from visit to visit"),
    ("C12", "6b9ce0b", "a rejected work sent up to three verdicts into a channel of two: the runner blocked for ever if nobody read them"),
    ("C19", "6b9ce0b", "verifications abandoned while their work was being rejected blocked the runner for ever"),
    ("C12", "8811d49", "a free runner looked at one IP's queue only: scheduled work of other IPs was stranded until more work came"),
    ("C14", "8811d49", "the queue of an IP was kept after it had drained: no more than queue_length IPs were accepted in the life of the process"),
    ("C12", "10a5ad1", "work was handed to a busy runner and waited behind its job while other runners were idle"),
    ("C13", "10a5ad1", "an IP with many pending works was served before every other IP"),
    ("C14", "10a5ad1", "work handed to busy runners didn't count as pending, so the bound on pending works didn't hold"),
    ("C05", "6399790", "visitors restored into a site that had no counter never expired"),
    ("C05", "310ecc6", "visitors discarded by SetInternalData were still decremented from the count later"),
    ("C11", "310ecc6", "restoring twice (or over live visitors) left a wrong visitor count once the discarded visitors' time had come"),
    ("C09", "783397e", "a site removed, renamed, registered anew or visited while a cleanup round was looking at it: master panicked, or a wrong or busy site was removed, or a site was left with a stopped counter"),
    ("C11", "a049b83", "SetInternalData was acknowledged before it was applied, and not applied at all to a site that was being cleaned up"),
    ("C18", "887b1ad", "Redis cache crashed when a caller had stopped waiting for its answer"),
    ("C18", "a2ca8db", "Redis cache crashed when a token could not be stored"),
    ("C18", "d88a17a", "malformed answers of the module crashed the Redis registry and the Redis cache"),
    ("C20", "0a22774", "the mCaptcha module was not found when other modules were loaded before it"),
    ("C18", "d145220", "faults while looking for the module crashed the client or were taken for success"),
    ("C20", "d145220", "an error in reply to MODULE LIST was taken for a loaded module"),
    ("C16", "7ee7d12", "tokens of different pairs of site and token could share one Redis key, e.g. (a:b, c) and (a, b:c)"),
    ("C18", "e8a5657", "creating a Redis client crashed when the server could not be reached"),
]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump({"findings": [], "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(V, "known-findings.json"), "w"), indent=1)
