// Hand-written part of DESIGN.md, per property: what decides it (oracle, generator) and why that
// reaches what the unit tests cannot. tools/mkdesign.mjs adds rules, bounds and findings.
export const notes = {
  E01: ['Differential test against `lib/refeval.mjs`, an independent evaluator written from the documented flag format (segments in order, conditions as OR of ANDs, bucketing, default variant, segment metadata). Flag sets, contexts and results of dependencies are generated together so that conditions are hit (values are drawn from a shared pool); selectors, keys and dependencies named like members of Object.prototype occur. Repeatability and segment locality are metamorphic relations.', 'Tests use a recorded server configuration of a few flags; here every combination of missing bucket, several segments, sticky and dependent conditions occurs.'],
  E02: ['One condition at a time against the reference operators; metamorphic complement (negated operators), representation (JSON text of a list, text of a scalar) and grouping relations.', 'Operators meet each JSON kind (null, nested, NaN-like text, unusual case mapping) with each other.'],
  E03: ['Reference murmur3 over UTF-8 (written independently, validated with published vectors). The bucket is observed through the public evaluation by one-bucket allocations, so the check does not depend on internals. Tilings, widening and irrelevance of other properties are metamorphic; uniformity uses loose bounds on 20 large samples with a fixed seed.', 'Hash vectors of the tests are ASCII of a few lengths; surrogate pairs and every tail length matter.'],
  E04: ['Invariant on the order returned for random graphs (each flag once, after its dependencies, cycle reported exactly if one is reachable; keys named like members of Object.prototype included), and metamorphic: a subset evaluates as within everything.', 'Graph shapes and listing orders cannot be enumerated by examples.'],
  E05: ['Independent component-wise version comparison; consistency of the four relations and transitivity on triples; a time limit by a watchdog process for pathological text.', 'Order laws are quantified over triples; the backtracking defect needed a specific length.'],
  E06: ['Trace steps are compared with the reference evaluation of each segment and with the untraced result.', 'No test compares trace and evaluation over generated flags.'],
  E07: ['Recording transport: the request is decoded again and compared with the user; a generated response must decode to the same variants. The default transport is driven under a virtual clock with every order of answer, error and timeout.', 'Unicode users, entries out of order and races of timeout and answer.'],
  X01: ['Reference lookup `lib/client.mjs` (documented precedence per source option, inline and configured fallback, default variants); every key of the pool is looked up, incl. member names of objects.', 'The product of sources x modes x fallback kinds x metadata is far larger than the sampled cases.'],
  X02: ['A map model of the stored variants over histories of fetches (full, by flag keys, tracking options), failures, clears, restarts; requests in flight are answered in any order.', 'Overlaps and late background retries are schedules, not inputs.'],
  X03: ['Models per (instance, deployment) over one shared storage; crash points between operations; corrupt and failing storage must be as if absent.', 'Arbitrary stored text and failing accesses at any call.'],
  X04: ['Discrete event simulation of the retry schedule against a virtual clock: times, users and the effect of every attempt.', 'Overlapping failing fetches, success at any attempt, cancellation at any time.'],
  X05: ['Reference merge (explicit over integration over provider, per field and property); deep-freeze-like comparison of the objects of the caller before and after; later changes of the caller must not show.', 'Aliasing needs mutation after the call; tests look at values only.'],
  X06: ['For one lookup the set of events due is derived from the X01 reference; provider, integration and the legacy analytics provider are recorded.', 'Depends on the product of precedence x metadata x configuration.'],
  X07: ['A model of what the identity has been exposed to in the session; deliveries are compared after each step. Two divergences are known findings (see below), matched by key; any other divergence is a violation.', 'Histories over several reloads and identities.'],
  X08: ['Queue model (bounded, in order, at least until accepted) with an integration that accepts, refuses or throws by a generated script, polls of a virtual clock, crash and reload between events, integrations which replace each other during their setup.', 'Event loss needs refusal, drain and another refusal in a row.'],
  X09: ['Model: last successful response plus bundled flags; the request schedule of polling is compared with the configured one; answers may come late, after the timeout or after stop().', 'Interleavings of start, stop, polls and failures.'],
  X10: ['Map model keyed by documented identity of an instance; observable defaults (what is requested, with what timeout) per configuration.', 'Pairs of initializations over all key combinations.'],
  X11: ['The analytics formats are written by an independent encoder and must be read back with the documented precedence; live part: connector session and fetch waits under a virtual clock.', 'Encodings of identifiers outside Latin-1, unreadable copies in any source.'],
  X12: ['Model of landing URL, first seen, referrer, cookies, URL parameters and the parsed user agent over visits in several tabs.', 'Histories and member-named parameters.'],
  X13: ['Metamorphic: the same history runs with a complete log and with other logger settings; each log must be the complete log cut at its level, at its place, and results, requests and storage must be equal. The number of errors is predicted from the server script. Sequences of calls with arbitrary arguments go through the logger itself.', 'Interplay of levels with every outcome of fetches, polls and retries.'],
  X14: ['Model of what the provider was last told per flag, over histories of served variants and lookups, with providers of every shape (all methods, some, the Amplitude instance); requests are decoded and compared with the instance at that moment.', 'Losing and regaining a value, partial providers, flag keys named like object members.'],
  A01: ['Plain model of the identity; listeners record; editors are interleaved and left uncommitted.', 'Aliasing and interleaved edits.'],
  A02: ['List model of waiting events per instance.', 'Order over instances and the limit.'],
  S01: ['Model of ready states and persisted identity; events are counted per delivery.', 'Ready at any point of the history.'],
  T01: ['Monitor on every storage write, cookie write, request and exposure of a page until the decision; after a grant the page must equal (storage, requests, active effects) a reference page which never needed consent.', 'All initializations x updates x events; tests look at one storage call at a time.'],
  T02: ['Model of device content and buffer; slow and failing cookie access interleaved with the decision.', 'Schedule of asynchronous flush and a further decision.'],
  T03: ['Set model of the entries the deployment may own (documented list), with look-alike entries of other owners which must survive; the withdrawal happens at any point of a running visit on several hosts.', 'Crash-like points and cross-host histories.'],
  T04: ['Model of the buffer (order, limit, time stamps) and of retry polls.', 'Schedules.'],
  T05: ['Independent reference on parsed URLs (WHATWG URL of the platform).', 'Input space of URLs.'],
  T06: ['Monitor over whole journeys: each navigation is checked for cause, target, kept parameters; chains are bounded (loops); reports are counted per redirect and located; a page which must redirect does. The site may rewrite targets on the server or in the application (completely or partly); hosts may differ; navigations take time; the application may carry redirects out itself and may fail to.', 'Redirect loops and double reports arise only over several documents.'],
  T07: ['Independent model (`lib/effects.mjs`) of active pages and variants gives the set of effects which must be in place at rest; the DOM stand-in and injected elements are compared after each step. Injected code may throw or come late.', 'Histories with bursts inside one task.'],
  T08: ['Independent model (`lib/triggers.mjs`) of each trigger kind against DOM events, observers, timers and visibility. The part `busy` lets elements appear while the page changes every few milliseconds, with bursts beyond what is collected at once.', 'Every trigger kind x every event order.'],
  T09: ['Bus: list model. Pages: subscribers must see each change of the set exactly once, in order.', 'Joins and leaves in notifications.'],
  T10: ['Model of the history with a crash allowed between any two steps; relay exchanges stepped one message at a time; losslessness: the union by uuid of the newest 500.', 'Crash points and exchange interleavings.'],
  T11: ['Matched behaviours compared with counting from scratch over the whole history.', 'Windows, sessions and negations over generated histories.'],
  T12: ['Session model over a cookie jar with browser scoping.', 'Histories over hosts and time.'],
  T13: ['Model of pending requests and unconfirmed writes; foreign and malformed replies must have no effect.', 'Message schedules.'],
  T14: ['Cookie jar with browser rules (`lib/jar.mjs`) as environment; round trip and scope models.', 'Values outside ASCII, size limits, blocked access.'],
  T15: ['Identity model over hosts with several copies; a load may be interrupted at any storage access.', 'Crash points in the migration.'],
  T16: ['Model of the campaign per origin and analytics cookie; the second part runs the whole tag and looks at the user, at targeting and at the campaign kept over a redirect.', 'Precedence over histories.'],
  T17: ['Reference merge field by field; second part observes the effect on the consent gate; a third compares a whole visit (requests and their zone, session timeout, navigation handler, redirect encodings, instance, impressions) under argument plus page-level configuration with the visit under the one merged configuration, and with absolute expectations for each field.', 'Product of three sources.'],
  T18: ['Model of the overlay and of stylesheets owned by others.', 'Interleavings of apply, timeout and removal.'],
  T19: ['T07/T20 model extended with forced variants and preview configurations, over several documents; the notice is read from the page (one, the texts of flags and variants, gone once dismissed).', 'Histories in and out of preview.'],
  T20: ['Same world as T07; impressions compared with the model per published URL.', 'Histories.'],
  T21: ['Differential: a visit over corrupt entries must equal the visit over absent ones, on that page and on the next; who the visitor is and the session cookie are compared too. Malformed members (wrong types inside well-formed JSON, numbers as text) are as frequent as malformed text.', 'Arbitrary text.'],
  T22: ['Model of the handshake; scripts appended are recorded, never loaded; active pages, the notice of a severed opener and the debug state are compared after each step.', 'Messages from any origin in any order.'],
  T23: ['Monitor: each event emitted reaches the behavioural history exactly once whatever the start order; second copies of the script have no effect.', 'Schedules of start.'],
  T24: ['Model of the insertion helpers over mutation batches with the documented rate limit.', 'Batches and removals.'],
  T25: ['Reference evaluation over generated configurations (dependencies, remote and local) gives the variants expected before and after the served configuration; monitor on the overlay.', 'Startup schedules.'],
  T26: ['Reference counting of behaviours over both subdomains, with a stand-in for the relay frame; variants on the page at rest are compared.', 'Event/merge interleavings.'],
  T27: ['The trigger model of T08 and the reference evaluation of E01 give the expected state; a dependency is judged blocking only when the other conditions of its group hold.', 'Trigger histories x flag graphs.'],
  T28: ['Reference for which clicks are taken over and where they lead; list model of the history; a stand-in of a framework link runs its own handler. Tree model for removals.', 'Combinations of link, click and router.'],
  T29: ['Monitor over histories of the device frame, whose window is a stand-in which records what reaches it; the address, history, active pages, scripts and the effects of the page are compared after each step with what the frame shows. Framed pages without the mode are compared with the same page unframed.', 'Stages of the document x navigations of the frame; no test covers the shell.'],
  T30: ['Each visit is driven with a stand-in for the analytics SDK that speaks the connector interface, loaded before or after the tag; a model of the identity (persisted, announced, changed) gives what must be applied when, and which impressions the SDK must have received in which order and by when.', 'Order of scripts x identity times x receiver times x visits: the default integration is replaced in all other properties and in the tests.'],
};
