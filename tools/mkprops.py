import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
     "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
     "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
H="src/cache/hashcache.rs";S="src/system.rs";PW="src/pow.rs";Q="src/queue.rs";M="src/mcaptcha.rs";D="src/defense.rs"
CT="src/master/embedded/counter.rs";EM="src/master/embedded/master.rs";RM="src/master/redis/master.rs";MR="src/redis/mcaptcha_redis.rs";R="src/redis/mod.rs";RC="src/cache/redis.rs";CM="src/cache/mod.rs";MM="src/master/mod.rs";U="src/utils.rs";E="src/errors.rs"
p("C01","A challenge in the in-memory store can be redeemed at most once",
 "In the in-memory store, retrieving a challenge consumes it: it returns the stored entry unchanged to the first retrieval, whatever site that retrieval names, and reports it absent to every later one. A challenge that was never stored is reported absent, and storing, retrieving or deleting one challenge leaves every other challenge and every token untouched.",
 ["inputs","histories"],"every sequence of store, retrieve, delete and validate requests, with any challenge strings and sites","The tests redeem one challenge once; they do not cover replays, interleavings with other entries or a retrieval for another site.",
 [H],[("retrieve removes the entry from the challenge map","HashCache: Handler<RetrivePoW>")],[("difficulty_map","challenge -> site, difficulty, duration",H)],["Handler<RetrivePoW>"])
p("C02","A token is issued only for a found challenge, its own site and a good proof",
 "A proof submission yields a verification token, and causes a token to be stored, only if the store returned an entry for exactly the submitted challenge, that entry belongs to the submitted site, and the submitted proof was judged both sufficiently difficult for the entry's difficulty and valid for the submitted challenge under the system's salt. Every other submission gets an error and stores nothing, and every accepted proof's entry is the source of the token's site and lifetime.",
 ["inputs","schedules"],"every submission (challenge, nonce, result, site, client address), store reply and interleaving","Tests exercise a few hand-made good and bad submissions, never all combinations of store replies, verdicts and queue outcomes.",
 [S,PW,CM],[("verify_pow","System::verify_pow"),("verdict computation","QueuedWork::run")],[],["System::verify_pow"])
p("C03","A verification token is accepted once, and only for the site it was issued for",
 "Validating a token answers true only if that token is stored for exactly the site named in the request, and the validation consumes it so that no later validation answers true; otherwise the answer is false or an error. In the in-memory store every validation attempt consumes the token it names, and in the Redis-backed store the entry consulted and deleted is the one that storing that very token for that very site created, distinct for distinct (site, token) pairs.",
 ["inputs","histories"],"every token and site string (separators included) and every sequence of validations, both stores","Tests validate one token with two sites; Redis tests cannot run here, and no test uses adversarial names.",
 [H,MR,RC,CM],[("validation removes before comparing","HashCache: Handler<VerifyCaptchaResult>"),("DEL reply decides","MCaptchaRedisConnection::get_token"),("key derivation","MCaptchaRedisConnection::add_token/get_token/delete_token")],[("result_map","token -> site",H)],["Handler<VerifyCaptchaResult>"])
p("C04","Challenges and tokens expire after their configured lifetime",
 "Storing a challenge or a token in the in-memory store always schedules, for exactly that entry, its removal one lifetime (the request's duration, in seconds) later, and nothing that was stored under an unused name is removed earlier by expiry. The Redis-backed store creates each token with an expiry equal to the request's duration in seconds and passes each challenge's duration on unchanged.",
 ["inputs","histories"],"every stored entry, duration and order of requests","Tests wait for one entry with one small duration; a wrong unit, entry or missing timer on another path goes unseen.",
 [H,MR,RC],[("timer per stored entry","HashCache: Handler<CachePoW>, Handler<CacheResult>"),("SET .. EX","MCaptchaRedisConnection::add_token")],[],["Handler<CachePoW>","Handler<CacheResult>"])
p("C05","Every counted visitor is released exactly once, one duration after arrival",
 "Each visitor counted by a running site counter is released exactly once, when the site's configured duration (in seconds) has passed since it was counted. Visitors the counter is started with or that are imported into it are released together, once, one duration after that moment.",
 ["inputs","histories","schedules"],"every arrival sequence, import and start state","Tests count two visitors and wait; missing or doubled releases for preset or imported visitors, or wrong units, are not sampled.",
 [CT],[("timer per visitor","Counter: Handler<AddVisitor>"),("bulk release","Counter: Handler<SetInternalData>, Actor::started")],[("Counter.0","site state incl. visitor count",CT)],["Counter"])
p("C06","The visitor count is exact and never wraps or panics",
 "Counting a visitor raises a site's visitor count by exactly one, saturating at the maximum, and nothing else but importing a state raises it; releasing n visitors lowers it by exactly n, stopping at zero, and leaves difficulty levels untouched. No count or release amount makes these operations wrap around or panic.",
 ["inputs","histories"],"all counts and amounts over the full 32-bit range","Unit tests only use counts near the level thresholds.",
 [M,CT],[("add_visitor / decrement_visitor_by","MCaptcha")],[("visitor count","visitors in the current window",M)],["MCaptcha::get_visitors"])
p("C07","The active defense level always exists and moves one step at a time",
 "For every defense made by the builder, the active level is one of the configured levels at all times: tightening moves exactly one level up and stops at the strictest, loosening exactly one down and stops at the most lenient, and the min and max operations select the first and the last. The reported difficulty, threshold and current level are those of the active level, and none of these operations changes the configured levels or panics.",
 ["inputs","histories"],"every valid level list and every sequence of operations","Tests walk one three-level list.",
 [D],[("index arithmetic","Defense::{tighten_up,loosen_up,max_defense,min_defense}"),("accessors","Defense::{get_difficulty,visitor_threshold,current_level}")],[("active level index","position in the level list",D)],["Defense"])
p("C08","Only valid defense and site configurations can be built",
 "A defense that is successfully built has at least one level, every difficulty greater than zero, levels in ascending order of pairwise distinct visitor thresholds and difficulties that never decrease along that order, contains exactly the levels that were added, and starts at the most lenient level. A level is built only with both values set and difficulty above zero, and a site only with a defense and a duration above zero, taking exactly the values given and starting with no visitors; every rejected configuration yields an error, not a panic; building leaves what the builder was given in place, so that building again gives the same result.",
 ["inputs","configurations"],"every sequence of builder calls and level values","Tests try one example per error.",
 [D,M],[("builders","LevelBuilder, DefenseBuilder, MCaptchaBuilder")],[],["DefenseBuilder::build","LevelBuilder::build","MCaptchaBuilder::build"])
p("C09","Difficulty follows the load",
 "When a visitor is counted, the site's defense moves one level up if the new count exceeds the active level's threshold, moves one level down if the new count does not exceed the threshold of the level below, and otherwise stays. The answer to the visitor carries the difficulty that holds after this adjustment and the site's duration.",
 ["inputs","histories"],"every count, level list and active level","Tests check three counts of one configuration.",
 [M,CT,MM],[("level adjustment","MCaptcha::add_visitor"),("answer","Counter: Handler<AddVisitor>, AddVisitorResult::new")],[],["MCaptcha::add_visitor","Counter: Handler<AddVisitor>"])
p("C10","The challenge handed to a client is the one stored and later enforced",
 "For a visitor of a known site, the challenge string, difficulty and salt handed out are a freshly generated string, the difficulty the site registry reported for this visitor and the system's salt; the same string and difficulty are stored for that site with the reported duration, and only after the store confirmed it is the challenge handed out. An unknown site gets none and stores nothing, and a successful submission reports the difficulty that was stored.",
 ["inputs","fault_sequences"],"every site, registry answer and store outcome","Tests look at one site with an in-memory store that never fails.",
 [S,PW,H,RC],[("get_pow","System::get_pow")],[],["System::get_pow","System::verify_pow"])
p("C11","Challenges and tokens are unpredictable",
 "Every challenge and every verification token is generated anew from a cryptographically secure random generator, as at least 32 independent characters of the 62 alphanumeric ones. Neither depends on the request nor is reused.",
 ["inputs","histories"],"every challenge and token ever issued","No test can see the source or the amount of randomness from samples.",
 [U,PW,CM],[("get_random","utils"),("PoWConfig::new","pow"),("CacheResult from entry","cache::messages")],[],["PoWConfig::new","CacheResult::from"])
p("C12","Every accepted job runs exactly once",
 "A job accepted by the work queue is handed to exactly one worker, exactly once, which runs it exactly once; it is neither lost, duplicated nor left waiting while a worker is idle, for as long as the system that owns the queue lives. A worker asks for more work after every job, and a worker that gets none is remembered as idle and used for a later job.",
 ["schedules","inputs","histories"],"all interleavings of submissions from any addresses with workers finishing, any number of workers","The single queue test uses one worker and one schedule.",
 [Q],[("schedule / dispatch","queue manager"),("worker loop","queue runner")],[("per-address queues, rotation, idle workers","waiting jobs and free workers",Q)],["Runnable::run"])
p("C13","The queue bounds admission and a rejection has no effect",
 "When the number of client addresses with waiting jobs has reached the configured queue length, a submission is rejected with the queue-full error, is not run and changes nothing; otherwise it is accepted. An address stops counting towards the limit when its last waiting job is handed to a worker, so a full queue accepts again after it drains, and the answer the submitter gets is the queue's decision on its own job.",
 ["schedules","inputs","histories"],"all submission and completion histories and all queue lengths","The queue test never fills the queue and drains it again.",
 [Q],[("admission check","queue manager schedule")],[("number of queues vs. limit","addresses waiting",Q)],["System::verify_pow"])
p("C14","Waiting addresses are served fairly",
 "Jobs of one client address are started in the order they were accepted. Among addresses with waiting jobs service is round-robin: the one that has waited longest since its last turn is next, gets one job handed to one worker, and moves behind all others if it has more; a worker holds at most one job at a time.",
 ["schedules","inputs"],"all arrival orders from any number of addresses","Order is only observable under load that the tests do not create.",
 [Q],[("rotation","queue manager dispatch")],[],["order of Runnable::run"])
p("C15","Dropping the system stops and joins every thread it started",
 "When the system is dropped its queue manager is told to stop and is joined; on that message it leaves its loop and tells every worker to stop, and joins each of them; a worker leaves its loop on that message. No thread started by the system is detached.",
 ["schedules","configurations"],"any number of workers, any queue state at the time of the drop","Tests do not observe threads after a drop.",
 [Q],[("Drop impls and stop messages","queue manager and inner manager")],[],["Drop of System"])
p("C16","Each queued proof gets exactly one verdict and no failure turns into success",
 "Running a queued proof delivers exactly one verdict to its submitter without ever blocking the worker, whether or not the submitter still listens. A failure reported by the store, the registry or the queue during a submission or a challenge request is never turned into an issued token or challenge: the request then ends with an error, or with no challenge.",
 ["schedules","fault_sequences","inputs"],"all proofs, abandoned submitters and failing stores","No test abandons a request or makes the store fail.",
 [PW,S,Q],[("verdict channel","QueuedWork::run"),("error propagation","System::verify_pow, System::get_pow")],[],["System::verify_pow","System::get_pow"])
p("C17","The shared Redis connection is never used re-entrantly",
 "While one request of a Redis-backed component is suspended with the shared connection borrowed, no other request of that component can start to use it. Hence no interleaving of requests makes the connection's exclusive access fail at run time.",
 ["schedules"],"all interleavings of requests to one Redis-backed store or registry","It needs overlapping requests and a live Redis module; the Redis tests cannot run here.",
 [R,RC,RM],[("ctx.wait","Redis store and registry handlers"),("exclusive borrow","RedisConnection::exec")],[("connection cell","RefCell around the connection",R)],["RedisCache","redis Master"])
p("C18","No backend failure, odd reply or vanished requester brings a component down",
 "No error from Redis, no malformed or unexpected Redis reply, no requester that went away before its answer and no site counter that stopped meanwhile makes a store, a site registry or a counter panic; such failures become errors in the answer or are ignored. This includes connecting a store or registry and its start-up check of the Redis module.",
 ["fault_sequences","schedules","inputs"],"every failure point of every request","Tests never inject failures.",
 [RC,RM,MR,R,H,EM,CT],[("error propagation","all handlers and their futures")],[],["Handlers of stores, registries and counters"])
p("C19","Every request to a store or registry is answered exactly once",
 "Every request that a store or a site registry accepts is answered exactly once on every path, with the outcome of its own operation. No path drops the reply, answers twice or answers before the operation's outcome is known.",
 ["inputs","fault_sequences","schedules"],"every request kind, both backends, every branch","Tests cover the success branch of some requests.",
 [H,RC,EM,RM],[("reply channel","all handlers returning a reply channel")],[],["replies of Save and Master messages"])
p("C20","The in-memory site registry maps each name to its own site",
 "In the in-memory registry, adding a site starts a new counter from exactly the given configuration and makes it the one found under that name; a lookup or visitor reaches only the counter registered under exactly that name and changes no other; renaming moves the same counter to the new name and removes the old name; removing deletes exactly that name and stops its counter. Visitors, lookups, renames and removals of unknown names change no site.",
 ["inputs","histories"],"every history of add, rename, remove, visit and lookup with any names","Tests use one or two names and a few operations.",
 [EM],[("site table","embedded Master")],[("sites","name -> (looked-up flag, counter)",EM)],["embedded Master handlers"])
p("C21","Clean-up retires only sites that were used and have no visitors",
 "The periodic clean-up stops and deregisters a site only if that site has been looked up since it was registered and its counter just reported zero visitors; counter and name retired are the ones inspected together. A site that has visitors, that has not been looked up yet or whose counter does not answer is left alone, and only looking a site up (as an import into an existing site also does) marks that site as looked up.",
 ["inputs","histories","schedules"],"all registries, visitor counts and look-up histories","One test retires one site.",
 [EM],[("CleanUp","embedded Master: Handler<CleanUp>"),("looked-up flag","get_site / add_site")],[],["embedded Master"])
p("C22","Clean-up recurs for as long as the registry lives",
 "Starting the in-memory registry starts a clean-up, and every clean-up inspects every site registered at that time and then schedules the next one exactly once, after the configured interval in seconds. Nothing met during a clean-up, such as a counter that is gone, prevents the next one. No request starts one besides or changes the interval.",
 ["histories","fault_sequences"],"any number of rounds, any failure in a round","Tests see one round.",
 [EM],[("re-arming","embedded Master: Actor::started, Handler<CleanUp>")],[],["embedded Master"])
p("C23","Exporting and importing state keeps every site's data",
 "Exporting the in-memory registry yields, for each registered site whose counter answers, that counter's current state under that site's name and nothing else; exporting changes nothing. Importing replaces the state of each named site that exists and adds each that does not, with exactly the imported state, and leaves other sites alone.",
 ["inputs","histories"],"any set of sites and any imported data","One test exports and imports one site.",
 [EM,CT],[("export/import","embedded Master and Counter: Handler<GetInternalData>, Handler<SetInternalData>")],[],["GetInternalData","SetInternalData"])
p("C24","Asynchronous requests never block the executor thread",
 "No request handler, future or asynchronous operation of the library performs a blocking wait, blocking network input/output, sleep or unbounded busy-waiting on the executor's thread. Proof checking is done on worker threads only.",
 ["schedules"],"every asynchronous entry point and everything it calls","Blocking only shows as latency under load.",
 [S,Q,PW,H,RC,EM,RM,CT,R,MR],[("async boundaries","System, actors, Redis connection"),("worker threads","queue")],[],["all async functions and handlers"])
p("C25","A Redis server without the needed module or commands is refused at start-up",
 "A Redis-backed store or registry is created only after the server's module list, searched in full, contained the mCaptcha module and the server reported every module command the library uses as present; a missing module or command yields the corresponding error. A module list that holds other modules too does not lead to a refusal.",
 ["configurations","inputs"],"every module list and command table a server can report","The Redis tests cannot run here and use one server.",
 [MR,RC,RM],[("start-up check","MCaptchaRedis::new")],[],["MCaptchaRedis::new"])
p("C26","A rejected submission tells the client the right reason",
 "A submission whose challenge is unknown is rejected as string not found; one for another site's challenge as a site mismatch; one with too little work as insufficient difficulty; one with enough claimed work but a wrong proof as invalid; one the queue refuses as queue full. Errors reported by the store pass through unchanged, and the challenge is looked up before any of this.",
 ["inputs"],"every rejection cause and combination of causes","Tests cover two of the causes.",
 [S,PW,Q],[("error mapping","System::verify_pow, QueuedWork::run")],[],["System::verify_pow"])
p("C27","Safe code outside the library cannot bypass the guards",
 "Apart from reading serialised data back, code outside the library cannot construct or alter a defense, a site or a counter except through the checked builders and operations, cannot send the internal messages that release visitors, and cannot read or write the stores' tables, the queue or the registry's site table directly. The library itself contains no unsafe code.",
 ["programs"],"every program that uses the library","A test cannot show that code does not compile.",
 [D,M,CT,H,EM,S,Q,"src/lib.rs"],[("privacy and forbid(unsafe_code)","module structure")],[],["compiler"])
p("C28","Redis-backed operations act on exactly the named site, challenge and values",
 "Each request to the Redis-backed store or registry issues the one command that belongs to it, with the names and values of that request in the positions the command expects, and nothing else; what it answers is what the server replied, with the entry's difficulty and duration unswapped. No request is answered as successful unless the server accepted its command.",
 ["inputs","fault_sequences"],"every request and every server reply","The Redis tests cannot run here; they sample a few names.",
 [MR,RC,RM],[("command construction","MCaptchaRedisConnection"),("handlers","RedisCache, redis Master")],[],["commands sent to the server"])
p("C29","In the Redis-backed registry a challenge can be redeemed at most once",
 "With the Redis-backed store a challenge returned once for a submission is never returned again.",
 ["histories"],"all submissions over one Redis server","Needs the Redis module.",
 [MR,RC],[("GET_CHALLENGE of the Redis module","server side")])
p("C30","Visitor counting and expiry in the Redis-backed registry follow the leaky bucket",
 "With the Redis-backed registry each counted visitor is released exactly once after the site's duration and the difficulty follows the load as in the in-memory one.",
 ["histories"],"all arrival histories over one Redis server","Needs the Redis module.",
 [MR,RM],[("mcaptcha_cache Redis module","server side")])
p("C31","A proof costs the client the work its difficulty asks for",
 "No client finds an accepted proof for a difficulty d with materially fewer than the expected number of hash evaluations.",
 ["inputs"],"all client strategies","A statement about computational hardness.",
 [PW],[("mcaptcha_pow_sha256","dependency")])
p("C32","Timers fire on time",
 "Releases, expiries and clean-ups happen within a bounded delay of their due time.",
 ["schedules"],"all loads of the executor","Depends on the executor's and the machine's load.",
 [CT,H,EM],[("actix clock","dependency")])
p("C33","A visitor is never lost to a concurrent clean-up or rename",
 "A visitor request racing with a clean-up or a rename of its site is counted on a live counter that stays registered.",
 ["schedules"],"all interleavings of registry, counter and visitor messages","Needs specific interleavings of three actors.",
 [EM],[("message order between actors","embedded Master")])
p("C34","Serialised configurations, states and messages lose nothing",
 "Every configuration, site state, challenge and message of the library that can be serialised and read back is written with every one of its fields, each exactly once, unaltered and under a name of its own, and reading takes each field unaltered from the data written for that field, in formats with names and in formats by position; no field is skipped, swapped, or made up when its data is missing.",
 ["inputs"],"every value of every serialisable type, every format","No test serialises and reads back a value; a skipped or swapped field shows only in the affected state.",
 [D,M,MM,CM,PW,CT],[("serde implementations","all types with Serialize and Deserialize")],[],["serialised data"])
p("C35","Every accepted submission is eventually answered",
 "If the store, the registry and at least one worker keep making progress, every submission and every challenge request is answered after finitely many steps: it waits only for answers of the store, the registry and the queue and for its own verdict, each of which comes; nothing it waits for waits, directly or through others, for itself; no waiting job is passed over for ever; and no request is repeated until it succeeds.",
 ["schedules","fault_sequences"],"all schedules in which every component gets its turn, every failure answered by the store or the registry","A request that never ends shows only under a failure or a schedule no test brings about, and looks like a slow one.",
 [S,Q,PW,H,EM],[("waits of the request futures","System::get_pow, System::verify_pow"),("answers of the handlers and of the queue","HashCache, Master, InnerManager::run, RunnerThread::run")],[],["System::get_pow","System::verify_pow"])
p("C36","Settings, parts and copies are taken over exactly",
 "A system uses exactly the store, registry, proof-of-work configuration, number of workers and queue length it was given. A message put together by its builder carries exactly the parts that were set and is refused while one is missing; setting one part changes no other, and a builder starts with none set. A connection is opened to exactly the configured Redis server or cluster nodes. A copy of a configuration, state or message equals the original, and a site hands out its defense, duration and visitor count as they are.",
 ["configurations","inputs"],"every configuration and every value copied","Tests use one configuration with equal or unobserved values.",
 [S,MM,CM,R,PW,M,D],[("builders","SystemBuilder and the message builders"),("connection set-up","RedisConfig"),("copies","Clone implementations")],[],["SystemBuilder","message builders","Clone"])
p("C37","A refusal names its cause",
 "Each refusal of a configuration is reported with the error that belongs to what is wrong (no level, difficulty zero, two levels at one threshold, difficulty decreasing with the threshold, level without threshold or difficulty, site without duration or defense (naming it), duration zero), and each of these errors is reported only in that case, so that no valid configuration is refused. A failure of Redis, of a reply channel or of an actor's mailbox becomes the error of that kind, carrying the failure given, and an operation of the system that met one and answers with an error answers with that one; a reply of the Redis module that makes no sense (an unknown flag, text that does not parse) is answered with the module's own error.",
 ["inputs","configurations"],"every configuration given to the builders, every failure of what the library stands on","Tests try one refused value per error and no boundary (equal difficulties, first and last level, thresholds zero), and no failure of the server or of an actor.",
 [D,M,"src/errors.rs",MR,"src/system.rs"],[("refusals","LevelBuilder, DefenseBuilder, MCaptchaBuilder"),("conversions","impl From<..> for CaptchaError")],[],["builders","errors"])
p("C38","A Redis connection counts as alive only if the server says so",
 "Pinging a Redis connection sends one PING and nothing else, and answers true exactly if the server replied PONG; a failure, another text or any other kind of reply answers false.",
 ["inputs","fault_sequences"],"every reply of the server and every failure, on single and cluster connections","The only test pings a healthy server, which is not even available here.",
 [R,MR],[("ping","RedisConnection::ping, MCaptchaRedisConnection::ping")],[],["ping"])
p("C39","The library's objects can be used from any thread",
 "A system, and the configurations, sites, levels, challenges, answers and errors an application passes around, can be sent to and shared between threads; builders can be sent; and a request to a system (a challenge, a submission, a token's validation) can be awaited by an executor that moves it between threads, whichever store and registry the system uses.",
 ["configurations"],"every instantiation of the system with a store and a registry, every type of the public interface","The tests keep everything on one thread; nothing in them requires Send or Sync, so losing it compiles and passes.",
 [S,D,M,CM,PW,MM,E],[("auto traits","System, Defense, Level, MCaptcha, CaptchaError, PoWConfig, Work, messages"),("futures","System::get_pow, verify_pow, validate_verification_tokens")],[],["threads"])
p("C40","The secrets are never written to a log",
 "The library never writes a challenge, a verification token or the salt to the log, the standard output or the standard error, not even when an operation on it fails.",
 ["inputs","fault_sequences"],"every request, every failure","Tests look at answers, not at what is logged.",
 [H,RC,MR,S,Q],[("log and print calls","all handlers, futures and public operations")],[],["logging"])
p("C41","Equality tells values apart",
 "Two levels, defenses, builders of them, stored challenges or errors compare equal exactly if they agree in every part: a value equals its copy, and no two that differ in a threshold, a difficulty, the level the defense stands at, a duration, a site name or the cause of an error compare equal.",
 ["inputs"],"every pair of values","Tests compare few values, most of which agree in all parts.",
 [D,CM,E],[("PartialEq implementations","Level, Defense, LevelBuilder, DefenseBuilder, CaptchaError, CachedPoWConfig")],[],["comparison"])
p("C42","Systems, stores and registries do not affect each other",
 "What one system, store or registry does never changes another's behaviour: the library keeps no changeable state outside the objects its user made, and it neither reads the environment or files nor changes settings of the process.",
 ["histories","configurations"],"every history of requests to any number of systems in one process","Each test makes its own system and never uses two of them against each other.",
 [S,H,EM,CT,Q,U],[("statics and thread-locals","the crate"),("calls into the environment","every function of the crate")],[],["process-wide state"])
p("C43","What requests leave behind goes away again",
 "A challenge, a token, a visitor and a job take memory only until they are used up, expire or are answered. The requests of visitors make nothing else grow: no store, counter, registry, queue, worker or system keeps an entry for a request, an address or a token that is not removed with what it belongs to, nothing is leaked, and no request starts a task, timer or thread that goes on for ever.",
 ["histories"],"every history of requests, however long","Tests run for seconds; what stays behind shows only in a process that runs for weeks.",
 [H,CT,EM,Q,S],[("tables of the actors","HashCache, Counter, Master"),("lists of the queue","InnerManager, RunnerThread"),("tasks and timers","futures spawned by handlers")],[],["memory"])
p("C44","The text of an error tells which error it is",
 "Every error can be shown, as a text that is not empty. No two different errors of the library's own have the same text, whatever they carry; the text of an error that carries something (the name of a missing value or command, a failure of Redis or of a reply channel) tells it, and it tells nothing else.",
 ["inputs"],"every error and everything it may carry","Tests compare error values, never their texts, and cannot compare all pairs for everything they may carry.",
 ['src/errors.rs'],[("text of an error","CaptchaError")],[],["CaptchaError: Display"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
