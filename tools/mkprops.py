#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state, observe, hook=False):
    assert statement.count('. ')<=2, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning='state the property constrains') for n in state], observe_at=observe, hook_needed=('cfg(libmcaptcha_verif): makes the queue module public' if hook else None))))

SYS="src/system.rs"; HC="src/cache/hashcache.rs"; CM="src/cache/mod.rs"; POW="src/pow.rs"; Q="src/queue.rs"
MA="src/master/embedded/master.rs"; CO="src/master/embedded/counter.rs"; MC="src/mcaptcha.rs"; DE="src/defense.rs"
RC="src/cache/redis.rs"; RM="src/master/redis/master.rs"; MR="src/redis/mcaptcha_redis.rs"; RR="src/redis/mod.rs"; UT="src/utils.rs"

p("C01","A challenge can be answered at most once",
 "Every challenge the system issues is a string never issued before, and the first piece of work submitted for it uses it up whatever the outcome: accepted, insufficient, forged, submitted for the wrong site, turned away by a full queue, or abandoned. A later or concurrent submission for a used, expired or never issued challenge is refused, so one challenge never yields more than one verification token.",
 ["inputs","schedules","histories"],
 "All interleavings of issuing, submitting (any number of concurrent submitters of the same challenge, correct or not), expiry and abandonment.",
 "Unit tests submit a challenge twice in sequence; single use under concurrent submitters, after rejected attempts and after expiry is a statement about every interleaving.",
 [SYS,HC,UT],[("retrieval removes the stored challenge","HashCache::retrive_pow_config"),("verification takes the challenge before the work is judged","System::verify_pow"),("challenge strings are random","PoWConfig::new / get_random")],
 ["challenges stored in the cache","submissions in flight"],["results of System::get_pow and System::verify_pow"])
p("C02","Work is accepted exactly when it is a valid, sufficient proof for its challenge",
 "Work earns a token only if its result is the proof-of-work value of its nonce over the submitted challenge and the system's salt, that value meets the difficulty announced when the challenge was issued, and it is submitted for the site the challenge was issued for. Conversely, such work submitted alone and in time is accepted (unless the verification queue is full) and the difficulty reported with the token is the one announced.",
 ["inputs","schedules"],
 "All works (nonces, results at, just below and just above the required score, results copied from other challenges or salts), all difficulty factors, sites, and levels changing between issue and submission.",
 "Tests try one honest and one corrupted work at one difficulty; the boundary score, mixed-up challenges, and difficulty changing between issue and verification are not sampled.",
 [SYS,POW,CM],[("sufficiency and validity are both checked","QueuedWork::validate"),("site key comparison","System::verify_pow"),("difficulty is cached at issue time","System::get_pow / CachePoW")],
 ["difficulty, site and string of each outstanding challenge"],["results of System::get_pow and System::verify_pow"])
p("C03","A verification token is good for one validation, at its own site",
 "A validation succeeds only for a token the system issued, unexpired, presented for the site it was issued for, and only the first time: it never succeeds twice, for another site, or for a made-up token. Conversely the first presentation of an unexpired token, for its own site, succeeds.",
 ["inputs","schedules","histories"],
 "All sequences and interleavings of token issue, presentation with right and wrong sites, guesses, and expiry.",
 "Tests validate one token once and once more; concurrent validators, cross-site presentation and interleaved expiry are not covered.",
 [SYS,HC,CM],[("validation removes the token","HashCache::verify_captcha_result"),("token is stored with its site","HashCache::save_captcha_result / CacheResult::from")],
 ["issued tokens with site and deadline"],["results of System::verify_pow and System::validate_verification_tokens"])
p("C04","Challenges and tokens live for the site's duration and no longer",
 "A challenge stays answerable for exactly the duration its site was configured with when it was issued, and a token stays valid for exactly that same duration from the moment it is issued; after that they are refused. Expiry of one challenge or token never affects another.",
 ["inputs","histories"],
 "All durations, all instants of submission on either side of the deadline, many challenges and tokens of several sites outstanding at once, and site reconfiguration while they are outstanding.",
 "Tests sleep once past one fixed short duration; the exact boundary, long durations, different durations at once and cross-effects between entries are not sampled.",
 [HC,SYS,CM],[("removal is scheduled when an entry is stored","Handler<CachePoW> / Handler<CacheResult> for HashCache"),("duration travels with the challenge","System::get_pow, CacheResult::from(CachedPoWConfig)")],
 ["deadline of every stored challenge and token"],["virtual-time submissions around the deadline"])
p("C05","Every visit counts for exactly the site's duration",
 "The visitor count of a site at any time equals the number of visits it received within the last configured duration, plus visitors restored from a snapshot that are less than one duration old counted from the restore. Each visit and each restored visitor is counted once and leaves the count once, when its time is up, so the count never goes below or sticks above that number.",
 ["inputs","schedules","histories"],
 "All arrival patterns, durations, site configurations, renames, snapshot restores in the middle of traffic, and concurrent visits.",
 "Tests add a handful of visitors and wait once; the equality over every arrival history, including restores overlapping pending expiries, is not sampled.",
 [CO,MC,MA],[("a timer per visit decrements the count","Handler<AddVisitor> for Counter"),("restored visitors expire in bulk","Counter::started / Handler<SetInternalData>"),("count arithmetic","MCaptcha::add_visitor / decrement_visitor_by")],
 ["visitor count and pending expiries of every site"],["GetCurrentVisitorCount and GetInternalData after any history"])
p("C06","Difficulty follows traffic one level at a time",
 "With each visit the site's level moves by at most one: one level up if the visitor count, this visit included, is above the current level's threshold; one level down if it is not above the threshold of the level below; otherwise it stays. The difficulty given to the visitor is that of the resulting level, no visit leaves the lowest-to-highest range, and nothing other than a visit (or a restore or reconfiguration) changes the level.",
 ["inputs","histories"],
 "All level configurations (one level to many, any thresholds and factors, equal factors included) and all arrival/expiry histories.",
 "Tests drive one three-level configuration up and down once; hovering between two thresholds, the exact boundary counts and long configurations are not sampled.",
 [MC,DE,CO],[("level choice on each visit","MCaptcha::add_visitor"),("level moves","Defense::tighten_up / loosen_up")],
 ["current level, visitor count and thresholds"],["difficulty returned for each visit; snapshot contents"])
p("C07","Only sound configurations are accepted and levels stay in range",
 "A defence is accepted exactly when it has at least one level, all visitor thresholds are distinct, every difficulty factor is positive, and factors never decrease as thresholds grow; its levels are then in ascending threshold order whatever order they were given in, starting at the lowest. A rejection names a defect that is there. A site needs a defence and a positive duration; raising or lowering the level moves it by exactly one and stops at the ends, and the reported difficulty and threshold are those of the current level.",
 ["inputs","histories"],
 "All lists of levels in all orders, with all duplicates and extreme values, all setter/builder call orders and all sequences of raising and lowering.",
 "Tests check one rejected example per rule; acceptance of exactly the sound configurations over all orders and sizes is not sampled.",
 [DE,MC],[("duplicate thresholds rejected","DefenseBuilder::add_level"),("sorting and monotonicity check","DefenseBuilder::build"),("clamped moves","Defense::tighten_up / loosen_up"),("duration and defence required","MCaptchaBuilder::build")],
 ["builder contents, current level"],["results and errors of the builders; Defense getters"])
p("C08","The site registry behaves as an isolated map",
 "Adding a site makes it answer with its own configuration and zero visitors (or those it was added with), adding an existing name replaces it, renaming moves its state to the new name (replacing any site there) and removing makes it unknown; visits and challenges for an unknown site are refused without creating it. Operations on one site never change the configuration, count or level of another.",
 ["inputs","schedules","histories"],
 "All sequences of add, replace, rename (to a new, existing, same or unknown name), remove and visit over any set of sites.",
 "Tests add, rename and remove one site; sequences over several sites, including renaming onto existing names and replacing live sites, are not sampled.",
 [MA],[("registry operations","Master::add_site / get_site / rm_site / rename and their handlers")],
 ["map from name to site state"],["AddVisitor, GetSite, GetInternalData results after any history"])
p("C09","Cleanup removes only idle sites that had been visited",
 "The periodic cleanup never removes a site that has visitors, a site not accessed since it was added or last renamed when the round examined it, or a site other than the idle one it examined, even when sites are visited, renamed, replaced or removed while cleanup is running. Whatever happens during a cleanup, the registry keeps serving afterwards and no counted visit is lost.",
 ["schedules","histories"],
 "All interleavings of cleanup rounds with visits, renames, replacements, removals, restores and expiries.",
 "Tests let cleanup run on a quiet registry; operations arriving between the steps of a cleanup round are scheduling-dependent and never occur in the tests.",
 [MA,CO],[("check and stop in one step","Handler<StopIfIdle> for Counter"),("removal by identity","Handler<RemoveStopped> for Master"),("round","Handler<CleanUp> for Master")],
 ["registry, site visitor counts, cleanup round in progress"],["AddVisitor / GetInternalData after operations injected at the cleanup instant"])
p("C10","Idle visited sites are eventually cleaned up",
 "A site that has been accessed and whose visitors have all expired is removed from the registry at the latest one cleanup period (plus the time of the round) later, unless it is visited again first. Cleanup rounds keep happening for as long as the registry lives, whatever other operations do.",
 ["schedules","histories"],
 "All cleanup periods, all histories of visits and other operations before and between rounds.",
 "One test waits for one removal; that rounds continue forever and catch every idle site is a liveness statement over all histories.",
 [MA],[("rounds reschedule themselves","Handler<CleanUp> for Master"),("access marks","Master::get_site")],
 ["registry with access marks"],["GetInternalData / AddVisitor after waiting in virtual time"])
p("C11","A snapshot captures every site and restores it faithfully",
 "A snapshot contains every registered site with exactly its configuration, visitor count and current level; it survives serialisation, and loading it into an empty or populated registry makes every site in it answer with that configuration, count and level from then on. Sites absent from the snapshot are untouched, and a restored site's old visits no longer affect it.",
 ["inputs","histories"],
 "All registries, all histories before the snapshot, all times between snapshot and restore, and restores into fresh, overlapping or live registries, through a serialised form.",
 "A test restores one site once and compares two numbers; fidelity for every state and interplay with pending expiries is not sampled.",
 [MA,CO,MC],[("collection","Handler<GetInternalData> for Master"),("restore","Handler<SetInternalData> for Master and for Counter"),("serialised forms","serde derives on MCaptcha, Defense, Counter")],
 ["all site states"],["GetInternalData before and after, AddVisitor after restore"])
p("C12","Every accepted verification job runs exactly once, without delay or deadlock",
 "Every job the verification queue accepts is run exactly once by some worker as long as the queue exists, a refused job is never run, and no worker stands idle while an accepted job waits. Rejected, abandoned or slow jobs never block a worker, so the system keeps verifying forever.",
 ["schedules","inputs","histories"],
 "All worker counts, queue bounds, addresses, submission patterns and completion orders, including callers that go away and works that are rejected.",
 "Tests submit jobs and do not wait for all of them; lost, duplicated or stranded jobs depend on the order of completions and the number of addresses.",
 [Q,POW,SYS],[("dispatch","InnerManager::dispatch_to / dispatch / schedule"),("completion triggers the next dispatch","RunnerThread::run"),("verdict reporting","QueuedWork::validate")],
 ["waiting jobs per address, busy workers"],["start/finish of gated jobs; System::verify_pow results"],True)
p("C13","Verification capacity is shared fairly between addresses",
 "Jobs of one address start in the order they were accepted, and addresses with waiting jobs take turns: while an address has a job waiting, no other address has two jobs started. A burst from one address therefore delays any other by at most one job per competing address.",
 ["schedules","inputs"],
 "All mixes of addresses and bursts, worker counts and completion orders.",
 "Fairness is a property of the complete order of starts under contention; no test observes that order.",
 [Q],[("turn-taking ring of addresses","InnerManager::ips / dispatch_to"),("per-address FIFO","InnerManager::queues")],
 ["order of waiting jobs per address, ring of addresses"],["order in which gated jobs start"],True)
p("C14","The verification queue is bounded exactly and always recovers",
 "A job is refused with the queue-full error exactly when the configured number of distinct addresses already have jobs waiting; otherwise it is accepted. Addresses stop counting as soon as their last waiting job has started, so after any overload the queue accepts again.",
 ["inputs","histories","schedules"],
 "All queue bounds, worker counts, and histories of submissions and completions.",
 "Tests never reach the bound; exactness at the bound and recovery after overload need specific multi-address histories.",
 [Q],[("bound check","InnerManager::schedule"),("addresses are dropped when drained","InnerManager::dispatch_to")],
 ["number of addresses with waiting jobs"],["result of submitting gated jobs"],True)
p("C15","Dropping the verification queue shuts its workers down cleanly",
 "Dropping the queue lets running jobs finish, starts no waiting job that no worker had taken, ends every worker thread and returns, without panic, leak or deadlock, whatever was running, waiting or abandoned at that moment.",
 ["schedules","crash_points"],
 "All states (idle, busy, with backlog, full) in which the queue can be dropped and all completion orders during shutdown.",
 "Tests drop an idle queue; the state at the moment of the drop is what matters.",
 [Q],[("stop and join","Drop for Manager / Drop for InnerManager"),("worker loop exit","RunnerThread::run")],
 ["worker threads, jobs running and waiting"],["return of drop, live thread count, jobs started after drop"],True)
p("C16","Redis-backed challenges and tokens are single-use, site-bound and timed",
 "With the Redis-backed cache a challenge can be retrieved at most once, only for its own site and only until its duration is over, with the difficulty and duration it was stored with; a token validates at most once, only for its own site and only until its duration is over. No two different pairs of site and token (or challenge) are ever confused, whatever characters the names contain.",
 ["inputs","schedules","histories"],
 "All site and token names (separators, spaces, empty, non-ASCII), durations, difficulties and interleavings, including end to end through the system.",
 "The repository's Redis tests need a live server with a module and use one well-behaved name.",
 [RC,MR],[("challenge commands","add_challenge / get_challenge / delete_challenge"),("token keys and commands","add_token / get_token / delete_token")],
 ["server-side challenges and tokens with deadlines"],["cache message results against a model server"])
p("C17","The Redis-backed registry relays every operation faithfully",
 "With the Redis-backed registry each add, visit, rename, remove, existence and count request reaches the server exactly once with exactly the given names, levels and duration, in the order requested, and the caller receives exactly the server's answer: difficulty and duration of the visit, the visitor count, whether the site exists.",
 ["inputs","histories","schedules"],
 "All sites, level lists, durations, names and sequences or concurrent batches of operations.",
 "Needs a live server with a module to run at all; the tests check that calls succeed, not what they carried.",
 [RM,MR,"src/master/mod.rs"],[("handlers","Handler<...> for redis::Master"),("payload","CreateMCaptcha::from(MCaptcha), add_mcaptcha"),("exists mapping","check_captcha_exists")],
 ["server-side sites"],["results and the commands received by a model server"])
p("C18","Redis faults and departed callers are contained",
 "An error reply, unusable answer or lost connection makes the affected call of the registry or cache return an error (through the system: no challenge, no token, no validation), never a success and never a crash, and a caller that stops waiting does not disturb others: the Redis-backed registry and cache keep serving later requests, correctly, once the server is well again.",
 ["crash_points","schedules","inputs"],
 "All operations, all kinds of fault at each command, and all points at which a caller may abandon its request.",
 "No test injects a fault or drops a call; each needs a specific failure at a specific command.",
 [RC,RM,MR,RR],[("reply delivery to callers","Handlers' tx.send"),("error propagation","MCaptchaRedisConnection methods"),("reconnection","ConnectionManager")],
 ["actor liveness, server state"],["results of calls during and after injected faults"])
p("C19","Abandoning a call at any point does no harm",
 "A caller may drop a request for a challenge, a verification or a validation at any point at which it waits: the system keeps answering everyone else correctly, an abandoned verification or validation yields at most the effect of a completed one, never a reusable challenge or token, and abandoned visits are counted like others or not at all.",
 ["schedules","crash_points","histories"],
 "All suspension points of each call at which it may be dropped, in any history, with other calls in flight.",
 "Tests await every call to the end; cancellation at each suspension point is never exercised.",
 [SYS,HC,Q,MA],[("replies are sent into channels that may be gone","actor handlers and InnerManager::run"),("verdict channel","QueuedWork::validate")],
 ["calls in flight"],["results of later calls after abandoning a call at its k-th suspension"])
p("C20","Connecting to Redis succeeds exactly when module and commands are present",
 "Connecting the Redis-backed registry or cache succeeds if the server has the mCaptcha module loaded, wherever it appears among the loaded modules, and knows every command needed; otherwise it fails with the error for a missing module, or for a missing command naming that command.",
 ["inputs"],
 "All lists of loaded modules in all orders (none, only others, several) and all subsets of available commands.",
 "Tests can only see the one server they run against, if any.",
 [MR,RR],[("module and command check","MCaptchaRedisConnection::is_module_loaded")],
 ["server's modules and commands"],["result of constructing the Redis-backed registry and cache"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
import sys
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
