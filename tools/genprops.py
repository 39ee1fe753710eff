#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe, "hook_needed": None}})

LIM, POO = "goroutines/limited/goroutines.go", "goroutines/pooled/goroutines.go"
REG, GOR = "goroutines/internal/register/register.go", "goroutines/goroutines.go"
WAI, SLI, SLO = "prim/wait/wait.go", "prim/slices/slice.go", "prim/slices/options.go"
CHA, CHO, ATO = "prim/chans/chans.go", "prim/chans/options.go", "prim/atomics/atomics.go"
SP, ST, QU = "pipelines/stagedpipe/stagedpipe.go", "pipelines/stagedpipe/stats.go", "pipelines/stagedpipe/internal/queue/queue.go"
CLI = "pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go"

prop("P01", "Pools run every accepted job exactly once; Wait and Close are barriers",
 "For both pool kinds, every job whose Submit returned nil is executed exactly once, with the context that was submitted with it, whatever mix of blocking and non-blocking submission, submitting goroutines and nested submission is used. A Submit that returns an error (nil job, option of the other pool kind) never executes its job and does not disturb the others. A job counts as finished when its function has ended, by returning or by runtime.Goexit. Wait and Close return only after every job accepted before the call, and every job those jobs submitted, has finished, and they do return once these have finished; a pool can be used again after Wait, and no goroutine of a pool is left once its Close has returned.",
 ["schedules", "inputs", "histories"], "every pool kind, size, number of submitters and jobs, submission option mix, nesting and interleaving",
 "TestPool submits 1000 instantaneous jobs from one goroutine once; it never overlaps submitters, nests submissions, mixes options, rejects a job or looks at when Wait returns.",
 [LIM, POO, GOR], [("queue/WaitGroup accounting in Submit and runner", f"{LIM} Submit; {POO} Submit, runner"), ("Wait/Close", f"{LIM} Close, Wait; {POO} Close, Wait")],
 ["Submit return", "job start/end", "Wait return", "Close return"])
prop("P02", "A pool of size n runs up to n blocking jobs at once and never more",
 "In a pool created with size n, at no moment are more than n jobs submitted without the NonBlocking option executing. Any n such jobs can be executing at the same time, and as soon as one ends its place is available to a waiting submission, so capacity is never lost. In a limited pool, jobs submitted with NonBlocking do not take up any of the n places; in a pooled pool they may run in places that are idle.",
 ["schedules", "inputs", "histories"], "every size, job count, duration pattern, mix of options and interleaving of submitters",
 "No test measures how many jobs overlap, nor that the capacity is still n after many jobs.",
 [LIM, POO], [("slot channel", f"{LIM} Submit"), ("fixed set of worker goroutines", f"{POO} New, runner")], ["job start/end", "Submit return"])
prop("P03", "NonBlocking submission never waits for pool capacity",
 "A Submit with the NonBlocking option returns without waiting for any other job, and its job starts without waiting for any other job to finish, however many jobs are occupying the pool, queued or waiting in Submit. A job may therefore submit other jobs to its own full pool with NonBlocking and wait for them without deadlocking.",
 ["schedules", "histories", "inputs"], "every pool kind, size, occupancy and order of blocking and non-blocking submissions",
 "TestNonBlocking uses a zero Pool without workers and one job; it never fills a pool.",
 [LIM, POO], [("non-blocking branch of Submit", f"{LIM} Submit; {POO} Submit")], ["Submit return", "job start"])
prop("P04", "Pool Running and Len agree with what the pool is doing",
 "Running is never negative, is never less than the number of jobs of the pool that are executing and never more than the number of jobs whose Submit has begun and whose execution has not ended, so it is 0 whenever Wait has returned and nothing was submitted since. Len always reports the size the pool was created with, however busy it is.",
 ["schedules", "histories"], "every moment of every interleaving of submissions and completions",
 "No test reads Running or Len of a pool.",
 [LIM, POO, GOR], [("running counter", f"{LIM} Submit; {POO} Submit, runner"), ("Len", f"{LIM} Len; {POO} Len")], ["Running()", "Len()"])
prop("P05", "Pool names are unique among live pools and creation always terminates",
 "Creating a named pool always returns: with the requested name if no live pool of either kind has it, otherwise with that name followed by a hyphen and a number such that no two live pools share a name. Closing a named pool makes its name available again, unnamed pools never collide, and names containing digits, hyphens or whitespace, and sizes below 1, are rejected with an error without disturbing other pools. The registry of pools lists each live named pool exactly once and no closed or unnamed pool, and listing it terminates. A pool is live at least as long as any of its jobs is executing.",
 ["histories", "schedules", "inputs"], "every sequence and interleaving of pool creations and closings of both kinds with arbitrary names",
 "The tests create two pools with different names and never close or collide.",
 [REG, LIM, POO], [("registry under a mutex", f"{REG} Register, Unregister, Pools"), ("name generation", f"{REG} NewName; {LIM} New; {POO} New")], ["New return", "GetName", "Close return", "register.Pools"])
prop("E01", "goroutines.Errors is a loss-free concurrency-safe error log",
 "With any number of goroutines recording while others read, without further locking and without data races, every recorded error appears exactly once and in one fixed order that respects real time, each list of errors read is a prefix of every later one, and the single error read is always the first of that order (nil if none). A caller that changes or appends to a list it was given never affects the collector or another caller.",
 ["schedules", "histories"], "every interleaving of Record, Error and Errors calls",
 "The type has no test.",
 [GOR], [("mutex around the slice", f"{GOR} Errors")], ["Record return", "Error()", "Errors()"])
prop("W01", "wait.Group runs every function once and Wait waits for all of them",
 "Every function given to Group.Go, with no pool or with either kind of pool, is called exactly once, unless the context given with it was already done before the call could start, in which case it may only be skipped if Wait then returns an error. Wait returns after all functions added before it (including those added by running functions) have finished, by returning or by runtime.Goexit, and always returns once they have. A Group with a Pool runs its functions, in every round, as jobs of that pool submitted with its PoolOptions. Running is at least the number of functions executing, never negative, and is 0 after Wait; the Group can then be reused for a new round that inherits no count, error or cancellation from the old one.",
 ["schedules", "histories", "inputs"], "every number of functions, pool kind, nesting, number of rounds and interleaving",
 "TestWaitGroupBasic runs five functions once per pool kind and looks at Running at rest.",
 [WAI], [("count/WaitGroup pairing", f"{WAI} Go"), ("reset", f"{WAI} reset, Wait")], ["Go return", "function start/end", "Wait return", "Running()"])
prop("W02", "Wait reports every error and only real errors",
 "Wait returns nil exactly when every function was called and returned nil. Otherwise its error contains, in the sense of errors.Is and errors.As, every non-context error that any function returned in that round, however many there are and whenever they occurred, and no error of another round. A bare context.Canceled or context.DeadlineExceeded is contained if it was the first error of the round, and not otherwise.",
 ["schedules", "inputs", "histories"], "every number, kind, order and simultaneity of failures",
 "The tests only check err != nil for one failing function.",
 [WAI], [("error accumulation by compare-and-swap", f"{WAI} applyErr"), ("Wait", f"{WAI} Wait")], ["function return", "Wait return"])
prop("W03", "Group cancellation fires on error, stops later work, and is not early",
 "With CancelOnErr set, the first function returning an error triggers the cancel function without waiting for the other functions, and no function whose context was cancelled starts once that cancellation has settled. If no function fails, the cancel function is not called before all functions have finished. In every case it has been called by the time Wait returns.",
 ["schedules", "histories"], "every position of the failing function, pool kind and interleaving",
 "TestWaitGroupCancelOnErr has one failing function and checks only that Wait returns an error.",
 [WAI], [("CancelOnErr call and ctx check before the function", f"{WAI} Go"), ("cancel in Wait", f"{WAI} Wait")], ["cancel call", "function start", "Wait return"])
prop("S01", "slices.Access visits each element once and writes only that element",
 "A slices.Access call that is not cancelled or stopped calls the accessor exactly once for every index, with that index, the element's value, and a modifier that stores into exactly that element of the caller's slice. It returns only after every accessor call has returned, so no accessor runs and no element changes afterwards. The error is nil exactly if every element was visited and every accessor call returned nil.",
 ["inputs", "schedules", "configurations"], "every slice length and content, accessor timing, option set and interleaving",
 "The tests use five elements, no options and no timing.",
 [SLI], [("per-index closure", f"{SLI} Access"), ("wait.Group.Wait before return", f"{SLI} Access")], ["accessor call", "modifier call", "Access return", "slice contents"])
prop("S02", "slices.Access honours errors, WithStopOnErr and cancellation",
 "Without WithStopOnErr an accessor error stops nothing: all elements are still visited, accessor contexts are not cancelled by it, and the returned error contains every accessor error. With WithStopOnErr the first accessor error cancels the context of the running accessors, no accessor starts once that has settled, and the returned error contains that first error. When the caller's context is cancelled before all elements were visited, no accessor starts once that has settled and Access returns a non-nil error, in every case only after all accessor calls have returned.",
 ["schedules", "inputs", "fault_sequences"], "every set and timing of failing elements, cancellation moment, pool and slice length",
 "The only error test has one failing element, no options and no cancellation.",
 [SLI, SLO, WAI], [("stopOnErr/CancelOnErr", f"{SLI} Access"), ("option application", f"{SLO} WithStopOnErr")], ["accessor call", "accessor context", "Access return"])
prop("C01", "chans.Access and Modify process every value exactly once",
 "chans.Access, when not cancelled or stopped, calls the accessor exactly once with each value received from the input channel until it is closed, and then returns after all calls have returned; the result is nil only if all returned nil, and otherwise contains every accessor error. chans.Modify, when not cancelled or stopped, sends exactly one result per input value (the modifier's value, or its error), closes the output channel exactly once after the last result and before it returns, and never sends on the closed channel. A nil input channel makes Access return nil; a nil input or output channel makes Modify return an error.",
 ["inputs", "schedules", "configurations"], "every input length, buffering, producer and consumer timing, error pattern and option set",
 "prim/chans has no tests.",
 [CHA], [("range over input + wait.Group", f"{CHA} Access"), ("one send per call, deferred close", f"{CHA} Modify")], ["accessor call", "output channel", "return"])
prop("C02", "chans.Access and Modify stop on cancellation or first error",
 "When the caller's context is cancelled, Access and Modify return a non-nil error even if the input channel stays open and idle or the output is no longer read, provided the accessors themselves return; no accessor starts once the cancellation has settled. With WithStopOnErr the first accessor error does the same: running accessors see their context cancelled and the returned error contains that first error. They return only after all accessor calls have returned, and Modify's output channel is closed on return. An error of a modifier counts here once its result was received from the output channel; a call whose input was already closed and used up when the cancellation came may still return nil.",
 ["schedules", "fault_sequences", "inputs"], "every cancellation or failure moment, input and output channel state and pool",
 "prim/chans has no tests.",
 [CHA, CHO, WAI], [("context handling of the receive loop", f"{CHA} Access"), ("send or cancelled select", f"{CHA} Modify")], ["accessor call", "return", "output channel close"])
prop("O01", "slices and chans use the caller's pool and submit options, else a bounded one",
 "With WithPoolOptions, every accessor call of slices.Access, chans.Access and chans.Modify runs through exactly that pool with exactly those submit options: its size bounds the concurrency (unless NonBlocking is among them), its counters see the jobs, and the pool is left open and usable. Without it, at most runtime.NumCPU() accessor calls are in progress at once and that many can be. Several options can be combined, valid options are never rejected, and of several WithPoolOptions the last counts.",
 ["configurations", "schedules", "inputs"], "every combination of options, pool kind and size and concurrent use of one pool by several calls",
 "No test passes any option.",
 [SLO, CHO, SLI, CHA], [("WithPoolOptions", f"{SLO}; {CHO}"), ("default limited pool", f"{SLI} Access; {CHA} Access")], ["accessor start/end", "pool Running", "return"])
prop("X01", "Users that share a pool do not affect each other",
 "Any number of wait.Groups, slices.Access, chans.Access and chans.Modify calls and direct submitters can use one limited or pooled Pool at once. As long as a place of the pool is not held by others for good, each call returns when its own functions have ended, however long the jobs of the others go on. Each of its functions that is called is called once with its own context, which no error, WithStopOnErr, CancelOnErr or cancellation of another user ends; its result has all of its own errors and none of another call. At most the pool's size of blocking jobs of all users together is in progress. When the calls have returned, the pool is open, and exactly the places of the jobs still running are taken.",
 ["schedules", "histories", "configurations"], "every mix of users, entry points, failures, cancellations and interleaving of their jobs",
 "No test has two users of one pool; slices and chans are never tested with a caller's pool at all.",
 [WAI, SLI, CHA, LIM, POO], [("Group.Wait waits on its own WaitGroup", f"{WAI} Wait"), ("derived context and cancel per call", f"{SLI} Access; {CHA} Access"), ("place taken and given back", f"{LIM} Submit; {POO} runner")], ["function call", "return", "pool Running"])
prop("A01", "RWValue is a linearizable value with atomic read-modify-write",
 "Concurrent Load, Store and LoadReplace calls on one RWValue behave as if executed one at a time in an order consistent with real time: each Load returns a complete value stored by an earlier operation (the zero value before any), each LoadReplace function receives the current value and its result replaces exactly that value, so no update is lost. No data race is involved, whatever the size of the value.",
 ["schedules", "histories"], "every interleaving of the three operations from any number of goroutines",
 "TestRWValue uses an identity LoadReplace and checks only the last stored value.",
 [ATO], [("writer mutex + atomic pointer", f"{ATO} RWValue")], ["operation call/return"])
prop("A02", "RWValue readers never block and failed updates change nothing",
 "Load returns the last stored value at once while a LoadReplace function is running or other writers wait. LoadReplace on a never-set RWValue calls its function exactly once with the zero value. If the function returns an error that very error is returned and the value is unchanged, and whether it succeeds, fails or panics, later operations proceed normally.",
 ["schedules", "fault_sequences", "histories"], "every moment at which a reader runs relative to writers and every outcome of the replacer",
 "The test's LoadReplace never fails, never blocks and never runs on a zero RWValue.",
 [ATO], [("LoadReplace", f"{ATO} LoadReplace")], ["Load return", "LoadReplace return"])
prop("G01", "Every submitted request comes out exactly once, of its own group",
 "Each request accepted by a RequestGroup's Submit is delivered exactly once on that group's Out channel and on no other, carrying the data the stages left in it, its own error and its own context (the submitted one with what its stages put into it), for any number of groups, submitters, pipelines and requests sharing the Pipelines. A request for which Submit returned an error is never processed nor delivered. A group whose output is drained always gets all its outputs without depending on the requests of other drained groups.",
 ["schedules", "inputs", "configurations"], "every number of groups, submitters, pipelines, stages, options (ordered, DAG, delay warning) and interleaving",
 "TestPipelines uses one group at a time with one submitter; exactly-once is not checked (duplicates pass).",
 [SP], [("group tag and demux", f"{SP} Submit, New, NewRequestGroup"), ("runner", f"{SP} runner")], ["Submit return", "Out()"])
prop("G02", "Stages run exactly along the chosen route, with preprocessors before each",
 "Every request starts at Start and then runs exactly the stage each stage chose as Next, once per choice, until none is chosen; each stage sees the data and the context values left by the previous one, and a Next left over from an earlier stage, or from an earlier submission of the Request, is never followed. Before each stage every preprocessor runs once in the order given. As soon as a stage or preprocessor sets Err, or if Err was set before, no further preprocessor or stage runs for that request and it comes out with that Err.",
 ["programs", "inputs", "schedules"], "every state machine, route (including loops), preprocessor list and error position",
 "The tests use two or three fixed stages, no preprocessors and one error position.",
 [SP], [("processReq / execStage loop", f"{SP} processReq, execStage"), ("resetNext", f"{SP} resetNext")], ["stage call", "preprocessor call", "Out()"])
prop("G03", "Ordered pipelines emit each group's requests in submission order",
 "With the Ordered option, each group's Out delivers its requests in the order in which they were submitted, regardless of processing times, number of pipelines, other groups, errors or cancelled requests. A Submit that failed leaves no hole: every accepted request is still delivered, in order, before the channel closes.",
 ["schedules", "inputs", "fault_sequences"], "every assignment of processing times, group mix, submission failure and interleaving",
 "TestOrdered has one group, instantaneous stages and no failures.",
 [SP], [("itemNum and InOrder", f"{SP} Submit, NewRequestGroup")], ["Submit call/return order", "Out()"])
prop("G04", "DAG pipelines never run a stage twice and never reject an acyclic request",
 "With the DAG option, no stage, Start included, is executed more than once for one request: an attempt ends the request with an error that IsErrCyclic recognises before the stage or its preprocessors run again. A request that visits no stage twice is never given a cyclic error, whatever other requests do concurrently and wherever the request was processed before. Without the DAG option stages may repeat and no cyclic error is ever produced; IsErrCyclic is false for any other error. A stage is identified by its function or method.",
 ["programs", "schedules", "inputs"], "every route through every state machine, many concurrent requests, and requests passed on to further pipelines",
 "TestDAG sends four requests; it accepts a second execution of Start.",
 [SP], [("seenStages", f"{SP} seenStages, execStage, processReq"), ("methodName", f"{SP} methodName")], ["stage call", "Out()", "IsErrCyclic"])
prop("G05", "Cancelling a request's context stops that request and nothing else",
 "Once a request's context (the submitted one, or one that a stage put in its place) is done no further stage or preprocessor is started for it (a stage already running finishes) and it is delivered with the context's error unless it had already finished; its place in the pipeline is freed. A Submit waiting for a free place returns the context's error when its context is done, and a Submit with a nil context returns an error. Requests with other contexts, in the same or other groups, are unaffected, and Close of every group still completes.",
 ["schedules", "fault_sequences", "histories"], "every cancellation moment relative to submission, queueing and each stage",
 "The error test cancels once after an error and ignores what happens to the remaining requests.",
 [SP], [("context check in execStage", f"{SP} execStage"), ("select in Submit", f"{SP} Submit")], ["stage call", "Submit return", "Out()", "Close return"])
prop("G06", "Closing groups and pipelines completes, in order, and releases everything",
 "RequestGroup.Close, called after submission ended while the output is drained, returns after all the group's requests have been processed, and Out is then closed after the last of them was delivered, leaving other groups open. After Pipelines.Close, requests already accepted are still processed and delivered, then the state machine's Close is called exactly once, after the last stage call has returned. When everything is closed no goroutine of the library is left running or blocked in it.",
 ["schedules", "histories", "configurations"], "every number of groups, requests in flight, closing order and option set",
 "No test looks at StateMachine.Close, at Out after Close beyond one group, or at remaining goroutines.",
 [SP], [("Pipelines.Close and wg", f"{SP} Close, runner"), ("RequestGroup.Close", f"{SP} RequestGroup.Close, NewRequestGroup")], ["Close return", "Out() closed", "StateMachine.Close call", "goroutine stacks"])
prop("G07", "A Pipelines runs num x stages requests at once, no more and no fewer",
 "Pipelines created with num pipelines over a state machine with k exported stage methods, plus the exported stage methods of the objects given to CountSubStages, can have num x (k + sub-stages) requests in their stages at the same time and never more, at any time of their life. New rejects num below 1, a nil state machine, a state machine without exported stages and a negative delay warning.",
 ["configurations", "schedules", "programs"], "every num, state machine, sub-stage set, and history of successful, failed and cancelled requests before the measurement",
 "No test measures concurrency or uses CountSubStages.",
 [SP], [("numStages and runner goroutines", f"{SP} numStages, newPipeline")], ["stage start/end", "New return"])
prop("G08", "Pipeline statistics are exact at rest and sane at all times",
 "When no request is in flight, Stats reports Running 0, Completed equal to the number of requests that went through, and Min, Avg and Max (and the ingest Min, Avg, Max) equal to the smallest, average and largest time requests spent being processed (respectively waiting to be taken up). At any time Running lies between 0 and the concurrency, Completed never decreases and is at least the number of requests already delivered. Before the first request all values are 0.",
 ["histories", "schedules", "inputs"], "every history of request durations, failures and cancellations, and every moment of observation",
 "Stats has no test.",
 [ST, SP], [("stats counters", f"{ST} toStats, setMin, setMax; {SP} processReq, calcExitStats")], ["Stats()"])
prop("G09", "Request groups may come and go concurrently on shared Pipelines",
 "Any number of goroutines may concurrently create request groups on one Pipelines, use them and close them while others do the same: every group receives exactly its own outputs, every Close returns, every Out channel closes, and the process never aborts. This holds for any number of successive groups on the same Pipelines.",
 ["schedules", "histories"], "every interleaving of NewRequestGroup, Submit, Close and draining across groups",
 "The tests create groups one after the other from a single goroutine.",
 [SP], [("receiver registration in the demuxer", f"{SP} New, NewRequestGroup, RequestGroup.Close")], ["NewRequestGroup return", "Out()", "Close return", "process exit"])
prop("G10", "DelayWarning logs exactly the pushes to the output that take too long",
 "With DelayWarning(d), d > 0, a log message naming the Pipelines is sent for every request, of every pipeline and stage, whose push to the output has been waiting for longer than d, again each time this happens, and at most once per d for each request. As long as no request waits that long to be put out there are none, however long stages take and however long the Pipelines is idle. With DelayWarning(0) or without the option there are none. A warning changes nothing else: the requests come out as they would without it.",
 ["schedules", "histories", "configurations"], "every limit, processing time, idle time, number of pipelines and stages and every time during which the output is not read",
 "No test uses DelayWarning.",
 [SP], [("ticker reset and select of push or tick", f"{SP} runner"), ("DelayWarning", f"{SP} DelayWarning, New")], ["log output", "Submit blocking", "Out()"])
prop("X02", "Pipelines used at once do not affect each other",
 "Any number of Pipelines can be in use at once in one process, of equal or different names, types, numbers and options, and also over one state machine object. Each behaves as if it was alone: it delivers its own requests, each once, on its own groups, after the stages of their routes with its own preprocessors and its own DAG and Ordered options; its Stats count only its own requests; all of its num x stages places can be taken and no more, however full, blocked or unread another Pipelines is; and creating, using or closing another one, or failing or cancelling a request of another one, changes none of this. A state machine used by several Pipelines has its Close called exactly once for each of them, when that one is closed and its requests are delivered, and no earlier.",
 ["histories", "schedules", "configurations"], "every set of Pipelines with their options, workloads, moments of creation and closing, and interleavings of their stages",
 "Every test uses one Pipelines at a time.",
 [SP, ST], [("per-Pipelines channels, demuxer and stats", f"{SP} New"), ("per-Pipelines concurrency", f"{SP} newPipeline"), ("close waits for the requests of this Pipelines", f"{SP} Pipelines.Close"), ("seenStages shared by all Pipelines", f"{SP} processReq")], ["stage start/end", "delivery", "Stats", "state machine Close"])
prop("T01", "Every trace span the library opens is closed once, when its work is over",
 "When a recording OpenTelemetry span is in the caller's context, every span that wait.Group and the pipelines (request group, request, stage) start is ended exactly once, not before the work it stands for is over and no later than the completion of the operation (Wait, Close, delivery, or failed Submit); stage spans are children of their request's span, and functions run by a Group see a context whose span is the group's span. A request's span has error status exactly if the request is delivered with an error, and a delivered request carries the span its caller gave it, not one the library ended. Tracing changes none of the results.",
 ["configurations", "schedules", "histories"], "every operation mix, error and cancellation under a recording tracer",
 "No test runs with a tracer.",
 [WAI, SP], [("span handling", f"{WAI} Go, Wait; {SP} Submit, otelEnd, execStage, RequestGroup.Close")], ["tracer start", "span end", "span status"])
prop("T02", "Trace spans are named after what they trace",
 "When a recording OpenTelemetry span is in the caller's context, a wait.Group has one span per round, whose name contains the Group's Name (unspecified if it has none); a request group has at most one span, and its name and the name of the span of each of its requests contain the group's name (unnamed if it has none); the spans of the accepted requests of one group have different numbers; and every stage a request runs has a span of its own whose name ends with the name of that stage's method, in the order in which the stages ran. An untraced context makes no spans.",
 ["configurations", "schedules", "histories"], "every mix of groups, submitters, requests, routes, options and traced and untraced contexts",
 "No test runs with a tracer.",
 [WAI, SP], [("span names", f"{WAI} Go; {SP} Submit, execStage, methodName, startName")], ["tracer start"])
prop("R01", "No data races; completion makes effects visible",
 "Using the packages concurrently in the ways they document involves no data race inside the library. The plain memory effects of a job, function, accessor or stage are visible without further synchronisation to whoever observes its completion: after Wait or Close of a pool, Wait of a Group, return of slices.Access, chans.Access or chans.Modify, receipt of a result or request from an output channel, of a value from a pipeline queue or a Load of an RWValue; a state machine's Close sees the effects of all its stages; and effects before Submit or Go are visible in the job.",
 ["schedules"], "every interleaving of documented concurrent use of every package",
 "The suite is not run under the race detector and its workloads do not overlap most operations.",
 [LIM, POO, GOR, WAI, SLI, CHA, ATO, SP, ST, REG], [("channel, WaitGroup, mutex and atomic synchronisation", "all packages")], ["race detector reports"])
prop("M01", "Nothing is kept of work that is over",
 "Objects that live on do not accumulate what passes through them. However many jobs a pool has run or refused, rounds a wait.Group has gone through, calls of slices.Access, chans.Access and chans.Modify were made, values an RWValue or a pipeline queue has held, and groups and requests a Pipelines has taken, failed or cancelled: the functions, contexts, values, errors, groups and state machines handed over can be garbage collected once their operation is over and the caller has dropped them, but for a number bounded by sizes and concurrency, and memory in use does not grow with the number of operations. Pools and Pipelines can be collected after Close. At rest no context derived from a caller's context is still registered with it, and after everything is closed no goroutine is left over, also when New returned an error.",
 ["histories", "schedules", "configurations"], "every length and mix of histories of successful, failing, refused and cancelled operations on every kind of object",
 "Tests end before anything accumulates and look at no memory, context registrations or goroutines.",
 [LIM, POO, REG, GOR, WAI, SLI, CHA, ATO, SP, ST, QU], [("registry entries removed by Close", f"{REG} Unregister"), ("Group reset after each round", f"{WAI} reset"), ("derived context cancelled on return", f"{SLI} Access; {CHA} Access, Modify"), ("receiver removed by RequestGroup.Close", f"{SP} RequestGroup.Close"), ("linked list of the queue", f"{QU} simple"), ("error paths of New", f"{SP} New")], ["garbage collection of what was handed over", "heap size", "context registrations", "goroutine stacks"])
prop("Q01", "The pipeline queue is FIFO, loss-free, bounded and closes cleanly",
 "With any number of pushers and poppers, every value pushed on a Queue is popped exactly once, and values are popped in an order consistent with the order of their pushes. With a size limit, at most that many values are held and Push blocks until there is room, and Pop blocks until a value is available and returns soon (within a second) once there is one, however long it has waited. After Close, Pop still returns every value pushed before the Close and only then reports the end, to every caller.",
 ["schedules", "histories", "configurations"], "every interleaving of Push, Pop and Close for every limit",
 "The queue has no tests.",
 [QU], [("linked list with compare-and-swap", f"{QU} simple"), ("limit channel and closed flag", f"{QU} Push, Pop, Close")], ["Push return", "Pop return"])
prop("D01", "stagedpipe-cli generates a program that builds and runs",
 "For every valid import path whose last element is a Go package name other than main and documentation, `stagedpipe-cli init -p PATH` creates a package directory of that name with source that compiles, and with -m also a main.go that compiles against it and, when run, pushes its items through a pipeline, prints each exactly once and reports success. If the package directory already exists the command fails and leaves every existing file unchanged.",
 ["inputs", "configurations"], "every package path and flag combination, with and without existing files",
 "The tool has no tests.",
 [CLI, "pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl", "pipelines/stagedpipe/tools/stagedpipe-cli/cmd/pipeline.tmpl", "pipelines/stagedpipe/tools/stagedpipe-cli/cmd/data.tmpl"], [("templates and file creation", f"{CLI} initCmd")], ["created files", "go build of them", "output of the generated program"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
