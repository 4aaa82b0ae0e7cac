import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
C='packages/experiment-core/src/'; B='packages/experiment-browser/src/'; K='packages/analytics-connector/src/'; S='packages/plugin-segment/src/'; T='packages/experiment-tag/src/'

p('E01','Flag evaluation yields the first matching segment that assigns a variant',
 'For every set of flags and every evaluation context, each flag resolves to the variant assigned by its first segment whose targeting matches (any group of conditions whose members all match; no conditions means everyone) and which assigns an existing variant, and to nothing if there is none. A matched segment assigns the variant of the bucket the user falls in, or its default variant when it has no bucketing, the bucketing attribute is missing or empty, or no allocation covers the user. The returned metadata is the flag, segment and variant metadata merged in that order, and flags evaluated earlier are visible as dependencies to later ones.',
 ['inputs'],'all flag configurations (segments, conditions, selectors into user/groups/results, buckets) x all evaluation contexts',
 'Existing unit tests evaluate a handful of hand-written flags, and the integration tests need live deployments and are not run offline.',
 [C+'evaluation/evaluation.ts',C+'evaluation/select.ts'],[('EvaluationEngine.evaluate',C+'evaluation/evaluation.ts')],['EvaluationEngine.evaluate result'])
p('E02','Condition operators match exactly as documented for every property value',
 'For every operator, filter value list and property value (absent, string, number, boolean, list or JSON list text), a targeting condition matches exactly when the operator relation holds: a positive operator matches when some filter value satisfies it, and the negated operators are the exact complement of their positive counterpart for a present scalar. Set operators compare list properties as sets and never match a scalar. An absent property matches a positive operator only when its filter lists "(none)", and an is-not or does-not operator only when it does not; set is-not and regular expressions never match it. No value makes evaluation throw except an invalid regular expression.',
 ['inputs'],'all operators x filter values x property values, including coerced numbers, booleans in any letter case, stringified arrays',
 'Unit tests hold one or two examples per operator; interactions with arrays, coercion and (none) are unbounded.',
 [C+'evaluation/evaluation.ts'],[('matchCondition/matchString/matchSet',C+'evaluation/evaluation.ts')],['whether a one-condition segment is selected'])
p('E03','Bucketing is a deterministic, murmur3-based, stable partition of users',
 'The bucket of a user depends only on the salt and the bucketing attribute: it is the 32-bit murmur3 hash (seed 0) of the UTF-8 text "salt/value", reduced to an allocation percentage and a distribution value. The same user therefore always gets the same variant regardless of other attributes or evaluation order; widening an allocation never moves a user who was already allocated; and half-open ranges that tile the space assign every user exactly once.',
 ['inputs'],'all salts, bucketing values (any Unicode), allocation and distribution range tilings, and unrelated context changes',
 'Tests check a fixed table of ASCII hashes and no metamorphic relation over allocations.',
 [C+'evaluation/evaluation.ts',C+'evaluation/murmur3.ts',C+'evaluation/utils.ts'],[('bucket',C+'evaluation/evaluation.ts'),('hash32x86',C+'evaluation/murmur3.ts')],['assigned variant'])
p('E04','Flags are evaluated after their dependencies; cycles are reported',
 'Ordering a set of flags lists every requested flag and everything it transitively depends on that exists exactly once, each one after all of its dependencies, whatever the order in which they were supplied. A dependency cycle reachable from the requested flags raises an error, an acyclic set never does, and dependencies that do not exist are ignored.',
 ['inputs'],'all dependency graphs (acyclic, cyclic, dangling, diamond, self loop) x all requested subsets x all listing orders',
 'Tests cover a few hand drawn graphs.',
 [C+'evaluation/topological-sort.ts'],[('topologicalSort',C+'evaluation/topological-sort.ts')],['returned order'])
p('E05','Version targeting follows semantic version ordering',
 'Version comparison conditions agree with numeric, component-wise comparison of major.minor.patch versions (missing patch is 0, leading zeros ignored, a pre-release sorts before its release, pre-releases compare as text). The relation is a total order: greater, less and their inclusive forms are mutually consistent and transitive; a value that is not a version is compared as plain text instead of failing, and values of any length and form are decided at once.',
 ['inputs'],'all pairs and triples of version-like strings and malformed strings',
 'Tests compare a fixed list of versions.',
 [C+'evaluation/semantic-version.ts',C+'evaluation/evaluation.ts'],[('SemanticVersion.parse/compareTo',C+'evaluation/semantic-version.ts')],['condition match for version operators'])
p('E06','Evaluation traces agree with the evaluation and explain it',
 'Evaluating with traces returns the same variants as evaluating without, for every flag set and context. Each trace records every segment visited in order, with its conditions, the values seen and whether each of them matched, up to and including the segment that supplied the variant; a visited segment is marked as matched exactly when its conditions passed and it assigned a variant, and the trace names the segment that supplied the variant.',
 ['inputs'],'all flag sets x all contexts',
 'Tests check traces of a few flags; nothing compares both modes.',
 [C+'evaluation/evaluation.ts'],[('evaluateWithTraces',C+'evaluation/evaluation.ts')],['results and traces'])
p('E07','Remote requests carry the user intact and responses decode faithfully',
 'A remote variant request carries the deployment key, exactly the given user (any Unicode, reversible from the request), the requested flag keys and the tracking options; a 200 response yields exactly the served variants, and every other response rejects with an error that carries its status. The flags request likewise yields every served flag under its own key and rejects otherwise, and the URL-safe base64 text encoding round-trips every string.',
 ['inputs','fault_sequences'],'all users, flag key lists, tracking options, response bodies and status codes',
 'Tests use one fixed ASCII user and mocked successes.',
 [C+'api/evaluation-api.ts',C+'api/flag-api.ts',B+'util/base64.ts'],[('SdkEvaluationApi.getVariants',C+'api/evaluation-api.ts'),('SdkFlagApi.getFlags',C+'api/flag-api.ts')],['HTTP request seen by the transport'])

p('X01','A variant lookup returns the highest-priority available source',
 'For every key and every combination of locally evaluated flag, stored variant, initial variant, inline fallback and configured fallback, looking up a variant returns the one from the highest-priority source for the configured mode (stored before initial, or initial before stored; locally evaluated flags use their local result first), with a server default variant used only when no fallback exists. Looking up all variants agrees: local results override the primary source which overrides the secondary one. A lookup never throws and never returns nothing, and without a deployment key every lookup is empty.',
 ['inputs','configurations'],'all combinations of sources and their contents for a key x both source modes x all fallback forms (string, object, none)',
 'The main client test file needs the network and is excluded; the precedence lattice has far more combinations than it samples.',
 [B+'experimentClient.ts',B+'util/convert.ts'],[('variantAndSource, localStorageVariantAndSource, initialVariantsVariantAndSource, localEvaluationVariantAndSource',B+'experimentClient.ts')],['variant(), all()'])
p('X02','Stored variants equal the effect of the successful fetches so far',
 'After any history of full fetches, partial fetches, failed fetches, timeouts and clears, also overlapping ones, the variants available are exactly those obtained by replaying the successful responses in the order in which they arrived: a full fetch replaces everything, a partial fetch replaces exactly the requested keys (removing those not returned), and a failed one changes nothing. The same contents survive re-creating the client over the same storage, and a fetch that fails with error throwing enabled rejects while others resolve.',
 ['histories','fault_sequences','crash_points'],'all histories of fetch(user, flag keys)/clear/failure/restart with arbitrary server variants',
 'Network-only tests are excluded; unit tests do not compose fetches.',
 [B+'experimentClient.ts',B+'storage/cache.ts'],[('storeVariants',B+'experimentClient.ts'),('LoadStoreCache',B+'storage/cache.ts')],['all(), localStorage across restart'],[('variant cache','variants per instance and key suffix','localStorage')])
p('X03','Caches survive restart, stay separate, and tolerate corrupt storage',
 'Variants and flags written by one client are read back unchanged by the next client of the same instance name and deployment key, and never by a client of another instance name or of a deployment whose key ends differently (storage names carry the last six characters). Whatever text storage holds under these names (invalid JSON, foreign values, garbage entries), and when storage is denied or fails, starting a client and looking up variants does not throw, every understood entry still counts, and every older storable variant format is understood.',
 ['crash_points','inputs','fault_sequences'],'all storage contents (valid of each format version, truncated, foreign JSON), all instance/key pairs, storage that throws',
 'Tests feed a few well-formed entries.',
 [B+'storage/cache.ts',B+'storage/local-storage.ts'],[('transformVariantFromStorage, LoadStoreCache.load',B+'storage/cache.ts')],['all() after restart'])
p('X04','Failed fetches are retried a bounded number of times with backoff',
 'A failed variant fetch is retried in the background with growing, capped delays and at most the fixed number of attempts, only when retries are enabled and only if the fetch failed by a timeout, network error, server error or rate limiting, not another client error. Retrying ends at the first success, whose variants are stored; a newer fetch cancels the outstanding retries of an older one, so at most one series of retries is ever under way.',
 ['fault_sequences','schedules'],'all sequences of per-attempt outcomes (success, 4xx, 429, 5xx, network error, never answering) x arrival times of newer fetches',
 'Tests use real timers and one or two fixed outcomes.',
 [B+'experimentClient.ts',B+'util/backoff.ts',B+'transport/http.ts'],[('startRetries/stopRetries/shouldRetryFetch',B+'experimentClient.ts'),('Backoff',B+'util/backoff.ts')],['times of outgoing requests'])
p('X05','User context merges sources by precedence without touching caller data',
 'The user sent to the server or evaluated locally has, field by field and user property by user property, the explicitly set value if present (not null or undefined), else the integration value, else the user provider value, else the library default; other fields pass through unchanged. User objects passed in by the caller, their user properties, initial variants and configuration are never modified, later changes to the fields and user properties do not leak into the client unless set again, and the cookie field is never sent to the server.',
 ['inputs'],'all combinations of explicit, integration and provider users, nested properties and groups',
 'Tests sample two or three fields.',
 [B+'experimentClient.ts',B+'util/convert.ts',B+'providers/default.ts'],[('addContext, cleanUserPropsForFetch, setUser, getUser',B+'experimentClient.ts')],['outgoing request, evaluation context'])
p('X06','An exposure is tracked exactly when a variant is really served',
 'A lookup or explicit exposure reports an exposure with the served variant and experiment key when the variant came from a server or local source; a lookup served by a fallback reports at most an exposure without a variant, and none when no assignment exists at all as documented; flags marked as not tracked report nothing, and automatic reports happen only when automatic tracking is on. Fallback variants and server default variants are never reported as the served variant.',
 ['inputs','configurations'],'all source combinations x variant metadata x automatic/explicit exposure x tracker kinds',
 'The tests check a few combinations with mocks.',
 [B+'experimentClient.ts',B+'types/exposure.ts'],[('exposureInternal',B+'experimentClient.ts')],['calls of the exposure tracking provider'])
p('X07','Exposures are deduplicated per flag, variant, identity and session',
 'Within a page, an exposure for a flag is delivered again only if the variant for that flag or the identity changed since its last delivery; otherwise it is delivered exactly once per session, also across page loads sharing the session and when storage is full, corrupt or denied. Exposures of in-page (web) experiments are always delivered, and different flags never suppress each other.',
 ['histories','crash_points'],'all sequences of (flag, variant, metadata, user) exposures, restarts and new sessions',
 'Tests exercise short fixed sequences.',
 [B+'integration/manager.ts',B+'util/userSessionExposureTracker.ts'],[('SessionDedupeCache.shouldTrack',B+'integration/manager.ts')],['events received by the integration'],[('EXP_sent_v3_','sent map','sessionStorage')])
p('X08','Queued exposure events are delivered in order, once, and survive restarts',
 'Events that cannot be delivered yet are kept, persisted, and delivered in order exactly once when the integration accepts them; if it refuses or throws, delivery stops there and resumes later with the same event. At most the fixed number of newest events is retained, a restart loses none of those that could be stored, an undelivered event is retried as long as the page lives, and full, corrupt or denied storage loses no event while the page lives. An integration which replaces another gets the events from when it is set up, as the object it is, and the replaced one, torn down once, is not called after that.',
 ['histories','fault_sequences','crash_points'],'all interleavings of pushes, integration outcomes (accept, refuse, throw), polls, restarts and tracker changes',
 'Tests check single pushes with a fixed tracker.',
 [B+'integration/manager.ts'],[('PersistentTrackingQueue',B+'integration/manager.ts')],['events received by the integration'],[('EXP_unsent_','unsent events','localStorage')])
p('X09','Local flag configurations follow the last successful update',
 'After any history of starts, polls and failures the flag configurations used are exactly those of the last successful flag response (removed flags disappear), with bundled initial flags used only for flags absent from it; a failed update leaves them unchanged and start still resolves, rejecting exactly when errors are asked to be thrown. Polling happens only between start and stop at no less than the minimum interval, starting twice does not double it, and after stop no further flag request is made.',
 ['histories','schedules','fault_sequences'],'all histories of start/stop/poll outcomes/restart with arbitrary flag sets and intervals',
 'Excluded network tests; poller tests use real time.',
 [B+'experimentClient.ts',C+'util/poller.ts'],[('doFlags, start, stop',B+'experimentClient.ts'),('Poller',C+'util/poller.ts')],['outgoing flag requests, variant()'])
p('X10','Client instances are shared per name and key and isolated otherwise',
 'Initializing twice with the same instance name and deployment key (names without dots) returns the same client, any other pair returns a distinct one, and configuration defaults fill exactly the fields left unset or null, with the server zone choosing the matching endpoints unless endpoints are given explicitly.',
 ['configurations','histories'],'all sequences of initializations with arbitrary names, keys and configurations',
 'Tests check two names.',
 [B+'factory.ts',B+'experimentClient.ts',B+'config.ts'],[('initialize, constructor config merge',B+'factory.ts')],['returned client, outgoing request URLs'])
p('X11','Analytics session state is read faithfully from cookies and storage',
 'The identity taken from a persisted analytics session, in any of the supported cookie and storage formats, equals what was written (any Unicode), with newer formats preferred; missing, truncated or foreign values give no identity and never throw. A fetch waits for the analytics identity at most ten seconds, an identity change refetches when enabled, and tracked events reach analytics, in order and once, as soon as it is present to receive them.',
 ['inputs','fault_sequences'],'all persisted session states, corrupted encodings, deployment keys and format combinations',
 'Tests hold one cookie value per format.',
 [B+'util/state.ts',B+'integration/amplitude.ts'],[('parseAmplitudeCookie, parseAmplitudeLocalStorage',B+'util/state.ts'),('AmplitudeIntegrationPlugin',B+'integration/amplitude.ts')],['user in outgoing request'])
p('X12','The default user context describes the page and the visit truthfully',
 'Whatever the URL, referrer, cookies, user agent and languages: each cookie has its whole value, each URL parameter has its value, or the list of its values when repeated or separated by commas, and language, browser, device and referring URL are those of the browser. The landing URL is the first URL of the session and the first-seen time the first use in this browser, constant over pages, navigation and time, also after the stored records were damaged. A given user provider overrides each field.',
 ['inputs','histories'],'all page visits with arbitrary URLs, cookies, browsers and stored records',
 'Tests look at one page with one set of values.',
 [B+'providers/default.ts'],[('getUser',B+'providers/default.ts')],['user provider result, variant() of flags targeting it'])

p('X13','Logging follows the configured level and changes nothing else',
 'Whatever happens to the client, only messages at or above the configured level (errors by default, debug messages with the debug flag, nothing when disabled) reach the given logger, or the console when none is given, in order, once and with their arguments; everything a caller, the server or storage observes is the same at every level. When errors are not to be thrown, each fetch that failed is reported as exactly one error and nothing else is: timeouts, failed polls and background retries are no errors of the caller.',
 ['inputs','histories'],'all histories of calls and server outcomes under all logger settings',
 'Tests call the logger itself with one message of each level.',
 [B+'logger/ampLogger.ts',B+'logger/consoleLogger.ts',B+'experimentClient.ts'],[('AmpLogger',B+'logger/ampLogger.ts'),('fetch, getLogLevel',B+'experimentClient.ts')],['logger and console calls, results, requests, storage'])
p('X14','Legacy analytics and user providers hear about assignments truthfully',
 'Over any history of fetches and lookups, a legacy analytics provider is told of each flag exactly when what it should know changes: a newly served value sets the user property and tracks one exposure, falling back or losing the value unsets the property, and repeating a lookup tells nothing. Providers may leave out the optional methods. The Amplitude providers translate this, and the identity of the instance at any stage of its initialization, without loss; calling the stub client has no effect and never fails.',
 ['inputs','histories'],'all histories of assignments and lookups, providers with any subset of the optional methods, any flag keys, partly initialized instances',
 'Tests look at single lookups with complete providers.',
 [B+'util/sessionAnalyticsProvider.ts',B+'providers/amplitude.ts',B+'stubClient.ts',B+'experimentClient.ts'],[('SessionAnalyticsProvider',B+'util/sessionAnalyticsProvider.ts'),('AmplitudeUserProvider, AmplitudeAnalyticsProvider',B+'providers/amplitude.ts'),('legacyExposureInternal',B+'experimentClient.ts')],['provider calls, vardata requests, variant()'])

p('A01','The identity store notifies exactly on change and edits atomically',
 'Replaying any sequence of identity edits and direct updates on a plain model gives the identity the store reports; edits become visible only on commit and all at once, applying set, unset and clear operations to user properties in order. Every registered listener is called exactly once for each update that changes the identity, with the new identity, and never otherwise or after removal.',
 ['histories'],'all interleavings of editors, operations, direct updates and listener changes',
 'Tests check single edits.',
 [K+'identityStore.ts',K+'util/equals.ts'],[('editIdentity, setIdentity',K+'identityStore.ts'),('isEqual',K+'util/equals.ts')],['getIdentity, listener calls'])
p('A02','Events logged before a receiver exists are delivered in order, once',
 'For every sequence of logged events and receiver registration, the receiver gets every event logged before it (up to the fixed limit, oldest kept) in order and exactly once, then every later event immediately; connectors are one per instance name, and different names share nothing.',
 ['histories'],'all sequences of log/receiver registration over several instances, beyond the queue limit',
 'Tests use a few events and one instance.',
 [K+'eventBridge.ts',K+'analyticsConnector.ts'],[('logEvent, setEventReceiver',K+'eventBridge.ts')],['events received'])
p('S01','Segment integration uses the live or persisted identity and never loses events',
 'The integration reports the identity of the live analytics instance once it is ready and the persisted one before, tolerating absent or corrupt persisted data; it forwards an exposure to analytics exactly when the instance is ready and otherwise reports that it was not delivered so that it is kept.',
 ['inputs','histories'],'all persisted identities (including corrupt), ready/not ready transitions and exposures',
 'Tests use fixed values.',
 [S+'plugin.ts',S+'snippet.ts'],[('segmentIntegrationPlugin',S+'plugin.ts')],['getUser, track results'])

p('T01','Nothing is stored or sent before required consent is granted',
 'While consent is required and not granted, a page load with any sequence of events, navigations, consent updates other than a grant, and repeated initializations writes no cookie, local or session storage entry and reads none of the SDK entries there (other than the documented preview exemptions, and the erasure a denial causes), sends no request, applies no variant, leaves the page as it is and reports no impression. A status once explicitly given beats the configured one, unknown values are ignored, an initial pending state cannot be re-entered, and a start once parked on consent is not released by an initialization which does not require it. A grant starts the client once, with the arguments of the last initialization, and from then on the page behaves as one without consent gate started at that moment: events tracked before the grant are not replayed.',
 ['histories','configurations'],'all sequences of initialize/setConsentStatus/tracked events/navigations under all consent configurations',
 'The consent journey tests do not run offline and cover fixed journeys.',
 [T+'index.ts',T+'consent/consent-gate.ts',T+'consent/consent-manager.ts',T+'util/storage.ts'],[('initialize, setConsentStatus',T+'index.ts'),('consentGate',T+'consent/consent-gate.ts'),('gated storage buffer',T+'util/storage.ts')],['storage, cookies, network, DOM'])
p('T02','Storage buffered before consent is committed on grant and dropped on denial',
 'While consent is required and undecided, local, session and cookie storage operations touch nothing on the device: reads see only what the page itself buffered (a snapshot, never device content) and a removal only takes back a buffered write. A grant writes exactly the last buffered value of each key in order, where identity entries keep the sticky identifiers already on the device; a denial discards the buffer, and while denied writes vanish, reads find nothing and removals reach the device. Keys exempt from the gate (preview and visual editor state) are always read and written directly. Blocked or failing storage loses only the entry concerned, and no write is started after a denial, even one that interrupts the grant flush.',
 ['histories'],'all sequences of get/set/remove on both stores and grant/deny transitions',
 'Tests sample single keys.',
 [T+'util/storage.ts',T+'util/grant-flush-merge.ts',T+'consent/consent-manager.ts'],[('gated storage',T+'util/storage.ts')],['storage contents'])
p('T03','Withdrawing consent erases the SDK data and nothing else',
 'When consent is denied - at load, while undecided, or at any moment of a running client - every cookie and storage entry belonging to the deployment and instance is removed at once, and no entry of the host page, another deployment, another instance or another product is touched. From then on no impression is reported, and a client which still runs writes nothing but its variant, flag, exposure and default user caches, until the page is left. Hosts of the same site which had not seen the erasure clear their own copies on their next load, before anything of them is used, unless a new identity was established since; opting in again starts from a new identity.',
 ['histories','inputs'],'all storage/cookie contents (own, foreign, similar names) x deployments x instance names x denial points',
 'Its tests do not run offline and sample a few keys.',
 [T+'consent/clear-data.ts'],[('clearAllData, armDenialCleanup, clearIfErasedElsewhere',T+'consent/clear-data.ts')],['storage and cookies'])
p('T04','Impressions before consent are replayed in order on grant, dropped on denial',
 'Impressions recorded for an integration while required consent is undecided are held back (the newest 512 per integration), and after a grant are handed to that integration once each, in order, with the time at which they originally occurred. When the tracker refuses or throws, delivery stops there and is retried every second while consent stands, keeping the order. After a denial nothing that was held is ever delivered, and new impressions are ignored. Without required consent the tracker receives every impression directly.',
 ['histories','fault_sequences'],'all interleavings of impressions, consent transitions, tracker outcomes and time',
 'Tests sample fixed journeys.',
 [T+'consent/consent-impression-buffer.ts'],[('ImpressionBuffer',T+'consent/consent-impression-buffer.ts')],['events received by the tracker'])
p('T05','URL rules: targeting compares canonical URLs, redirects keep query parameters',
 'A URL pattern matches a URL exactly when both agree as text apart from a trailing slash, with an asterisk standing for any text; reduced forms of a URL drop exactly its query, its fragment or both. Adding, removing and concatenating query parameters affects exactly the named parameters and keeps all others and the fragment; a redirect target keeps its own parameters and gains those of the current page that it lacks.',
 ['inputs'],'all URLs with arbitrary paths, parameters (repeated, encoded, empty) and fragments; all wildcard patterns',
 'The URL tests do not run offline and use a dozen examples.',
 [T+'util/url.ts'],[('matchesUrl, concatenateQueryParamsOf, removeQueryParams, urlWithoutParamsAndAnchor',T+'util/url.ts')],['resulting URLs'])
p('T06','A redirect fires once, never loops, and its impression is reported once',
 'A visitor who comes to an active page of a redirect variant is redirected, at most once per document and only when the target differs from the current page (compared without regard to the order of parameters, and to the fragment unless the redirect names one). The destination keeps the parameters of the current page, no further redirect starts while one is under way, and no configuration of redirects of one flag, nor a site which rewrites their targets, makes the visitor go in circles: a flag whose redirect was undone stays put for the session. Each redirect is reported exactly once, on the target when the visitor lands there and otherwise shortly after wherever the visitor ended up, across documents, hosts which share a cookie, and soft navigations; when only the URL carries the report to another site it is never lost, but may be repeated by the copy kept at the source.',
 ['inputs','histories'],'all source/target URLs, multi-flag pages with several redirects, landing or abandoned navigations, storage states',
 'Redirect tests do not run offline and use fixed URLs.',
 [T+'experiment.ts',T+'util/url.ts',T+'util/cookie.ts'],[('handleRedirect, fireStoredRedirectImpressions',T+'experiment.ts')],['navigations and impressions'])
p('T07','Page content always equals the effect of exactly the active variants',
 'After any history of applying, re-applying and reverting variants, page activation and deactivation, the mutations and injections in effect are exactly those of the variants currently applied on currently active pages, each in effect once; reverting or leaving a page removes its effects completely, and reverting everything restores the original page.',
 ['histories','inputs'],'all histories of apply/revert/page changes over arbitrary flags with mutate, inject and redirect actions scoped to pages',
 'Tests of the client do not run offline and use fixed journeys.',
 [T+'experiment.ts',T+'util/inject-utils.ts'],[('applyVariants, revertVariants, handleMutate, handleInject',T+'experiment.ts')],['DOM, mutation library calls'])
p('T08','Active pages are exactly those whose triggers are currently satisfied',
 'After any history of navigations, element appearances, clicks, analytics events, scrolls and time, the set of active pages equals the pages whose conditions and trigger are satisfied since the last navigation; a URL change resets triggers that depend on the previous page. Repeating an event that does not change satisfaction has no effect. An element which appears on a page that never stops changing is noticed within a second.',
 ['histories','schedules'],'all page object definitions x histories of navigations, messages, DOM changes and timers',
 'Tests sample single triggers.',
 [T+'subscriptions/subscriptions.ts',T+'subscriptions/message-bus.ts'],[('SubscriptionManager',T+'subscriptions/subscriptions.ts')],['active pages'])
p('T09','Subscribers are notified exactly once per change, in order, until they leave',
 'Message subscribers receive every message published to their kind after they subscribe and before they leave, in publication order, and a group notification runs once after all of them; page-change subscribers are notified exactly when the set of active pages changed, with the new set.',
 ['histories'],'all interleavings of subscribe, unsubscribe, publish and page changes',
 'Tests sample one subscriber.',
 [T+'subscriptions/message-bus.ts',T+'subscriptions/subscriptions.ts'],[('MessageBus.publish',T+'subscriptions/message-bus.ts')],['callback invocations'])
p('T10','The behavioural event history is bounded, ordered, durable and merges losslessly',
 'The event history is the newest events up to the fixed limit, in arrival order (time order once merged with the shared history). It reaches the device after the debounce or on unload, survives page loads and crashes up to the last such write, and merging with the shared history yields the union by event identity without duplicates, the shared copy winning, whatever order merges and new events occur in; events not yet shared are sent until confirmed. Corrupt stored history never throws and never blocks later events, old entries without identity get a stable one. Events recorded while consent is undecided are added to what the device holds on a grant and dropped on a denial.',
 ['histories','crash_points','inputs'],'all sequences of new events, syncs, failures and reloads, beyond the limit',
 'Tests sample short sequences.',
 [T+'behavioral-targeting/event-storage.ts'],[('EventStorageManager',T+'behavioral-targeting/event-storage.ts')],['events returned and persisted'],[('EXP_*_rtbt_events','event history','localStorage')])
p('T11','Behavioural targeting matches exactly the event history it describes',
 'A behavioural rule is matched exactly when, for some group, all of its conditions hold, each counting the events with its name and property filters in its rolling time window or in the current session, compared with its value, negated where marked. A rule is re-evaluated when one of the events it names occurs, on page load and when shared history is merged, and then gives the same answer as counting from scratch over the whole history; the outcome of a merge reports whether any match changed.',
 ['inputs','histories'],'all rules x all event histories x clock positions',
 'Tests sample a few rules.',
 [T+'behavioral-targeting/evaluator.ts',T+'behavioral-targeting/behavioral-targeting-manager.ts'],[('BehavioralTargetingEvaluator',T+'behavioral-targeting/evaluator.ts')],['matching flag keys'])
p('T12','A session lasts until thirty minutes of inactivity, across page loads',
 'For every sequence of activity times, page loads, concurrent pages of the same site and consent decisions, the session identity stays the same while gaps between activity are within the inactivity limit and changes after a longer gap; its start is the time of its first activity. Corrupt or foreign stored sessions start a new one without throwing, and nothing is stored while consent is withheld.',
 ['histories','inputs','crash_points'],'all activity time sequences with reloads and storage corruption',
 'Tests sample a few gaps.',
 [T+'behavioral-targeting/session-manager.ts'],[('SessionManager',T+'behavioral-targeting/session-manager.ts')],['session ids'])
p('T13','The relay trusts only its own frame and loses no pending write',
 'Messages are accepted only from the configured origin and the SDK frame, every request settles exactly once (answer or timeout) and replies are matched to their own request whatever the arrival order. Events written while the relay is unavailable or unconfirmed are sent again until confirmed (at least once, in order), and nothing is posted or settled twice after the client is destroyed. Invalid relay addresses make it unavailable and never throw.',
 ['schedules','fault_sequences','histories'],'all interleavings of requests, replies (late, duplicate, foreign, malformed), timeouts and destruction',
 'Tests sample one reply at a time.',
 [T+'behavioral-targeting/relay-client.ts',T+'behavioral-targeting/relay-protocol.ts'],[('RelayClient',T+'behavioral-targeting/relay-client.ts')],['messages posted and promises settled'])
p('T14','Cookie values round-trip and the broadest writable scope wins consistently',
 'Any value written through cookie storage is read back unchanged (any Unicode, reserved characters), on every host of the chosen domain until it expires, and removal removes it; malformed cookies read as absent without throwing. Cross-subdomain state lives at the broadest domain the browser accepts, and among competing copies resolves to the same merged value for every order of the cookies: the identity that was seen first is kept.',
 ['inputs','histories'],'all values, hostnames and pre-existing cookie strings',
 'Tests use fixed values.',
 [T+'util/cookie.ts',T+'consent/consent-cookie-storage.ts'],[('SyncJsonCookie, resolveCrossSubdomainObject, getCookieDomainLevels',T+'util/cookie.ts')],['document.cookie'])
p('T15','The web visitor identity is stable across page loads and migrations',
 'A visitor keeps one web experiment identity over any history of page loads, storage migrations between formats and subdomains, consent grants and partial storage loss: the identity is the stored one (or the device id of the older format), the shared one is that of the root-domain cookie, else of the origin; an existing identity is never replaced while any copy of it remains, a new one is created only when none exists, and a load renews the copies which are missing, also after a load that was interrupted, over stored text of any form.',
 ['histories','crash_points'],'all initial storage states (each format, corrupt, absent) x histories of loads and identity provisions',
 'The client tests do not run offline.',
 [T+'experiment.ts',T+'util/cookie.ts'],[('start identity section',T+'experiment.ts')],['user in evaluation and storage'])
p('T16','Campaign parameters come from the URL first, then persisted campaign data',
 'Each campaign parameter used in targeting comes from the current URL when present, else from persisted campaign data in the documented order (SDK store before analytics cookie); parameters of the current URL are persisted so that the next page load sees them, unrelated parameters are never picked up, and other user properties are kept.',
 ['inputs','histories'],'all URLs, persisted values, analytics cookies and page load sequences',
 'Tests sample a few parameters.',
 [T+'util/campaign.ts'],[('enrichUserWithCampaignData, persistUrlUtmParams',T+'util/campaign.ts')],['user properties'])
p('T17','Configuration precedence: page-level over argument over default, field by field',
 'The effective web configuration takes each field from the page-level configuration if given there, else from the initialization argument, else the default, merging consent options field by field, and mutates neither input. A consent status given explicitly, before or after initialization, beats the configured one, and an unknown configured status counts as undecided. A whole visit under both configurations goes as under the one merged configuration.',
 ['configurations'],'all pairs of partial configurations',
 'Tests sample a few fields.',
 [T+'util/config.ts',T+'types.ts'],[('mergeWithWindowConfig',T+'util/config.ts')],['effective configuration'])
p('T18','The page is never left hidden and only SDK-owned styles are removed',
 'Whenever the anti-flicker overlay is applied it is removed by an explicit removal or the safety timeout, whichever comes first; a stale timeout never removes a newer overlay, repeated applies leave at most one overlay, and styles of the page are never touched. Injected stylesheets can be reverted and re-applied any number of times with exactly their own rules in effect and no residue, whichever insertion mechanism the page allows.',
 ['histories','schedules'],'all interleavings of apply/remove/timeouts and stylesheet revert/reapply',
 'Tests sample single sequences.',
 [T+'util/anti-flicker.ts',T+'util/csp-safe-stylesheet.ts'],[('applyAntiFlickerCss, removeAntiFlickerCss',T+'util/anti-flicker.ts')],['document styles'])
p('T19','Preview shows exactly the forced variants, on top of normal behaviour',
 'In preview mode the forced variant of each previewed flag is the one applied regardless of targeting or bucketing, other flags behave as without preview, the impressions reported for a previewed flag are those of the forced variant and never of the evaluated one, and preview parameters are removed from the visible URL but survive navigation in the same session. One notice, which names the previewed flags and variants as text, is on the page until it is dismissed.',
 ['inputs','configurations'],'all preview parameter combinations x flags x stored preview state',
 'Tests do not run offline.',
 [T+'experiment.ts',T+'preview/preview.ts',T+'util/url.ts'],[('previewVariants, setupPreviewMode',T+'experiment.ts')],['applied variants and impressions'])
p('T20','Web impressions are reported once per variant per page URL',
 'Over any history of triggers, navigations, user changes, applications and reverts, an impression of a flag and its current variant is reported exactly once per visit of a URL (regardless of query and fragment), and again after the URL or the variant changed: for the control or no variant when one of the pages of the flag is active, for a treatment when one of its actions is in effect there. Nothing else is reported.',
 ['histories'],'all histories of apply/navigate over arbitrary flags and pages',
 'Tests do not run offline.',
 [T+'experiment.ts'],[('exposureWithDedupe',T+'experiment.ts')],['impressions reported'])
p('T21','Malformed stored state of the web SDK is as if it were absent',
 'Whatever text the storage entries and cookies of the web SDK and the AMP_REDIRECT URL parameter hold, the page loads, applies its variants, redirects and reports exactly as if each malformed entry (or malformed member of an entry) were absent, on that page load and on the next one, and nothing throws.',
 ['inputs','histories'],'all entries x malformed texts and members, after all short histories of earlier visits, then later visits',
 'Tests hold one or two corrupt values of single entries.',
 [T+'experiment.ts',T+'util/storage.ts',T+'util/cookie.ts',T+'behavioral-targeting/event-storage.ts'],[('start',T+'experiment.ts'),('getStorageItem, getStorageObject',T+'util/storage.ts')],['whole page loads'])
p('T22','The visual editor loads only when asked for by an Amplitude origin',
 'The script of the visual editor is loaded only over HTTPS from a host of amplitude.com, asked for by a message of such an origin or by the stored session, and at most one at a time; the loading indicator goes away when the editor fails to load or after 10 seconds; malformed messages, and messages of other origins, are ignored without throwing. While the editor is open no variant is applied, no impression is reported and the page is not hidden; the active pages follow the page objects the editor sets, which outside of the editor have no effect. When the window that asked for the editor cannot be reached a single notice says so until it is closed, and the debug state tells how far the editor got.',
 ['inputs','histories','schedules'],'all histories of messages (any origin, type and content), page object changes, load successes and failures, and page loads with or without editor parameters and stored editor state',
 'Tests sample single well-formed messages.',
 [T+'util/messenger.ts',T+'experiment.ts'],[('WindowMessenger.setup',T+'util/messenger.ts')],['script elements requested, answers posted'])
p('T23','The client starts once and misses no analytics event',
 'However often, with whatever arguments and from however many copies of the script initialize is called, one client is started and the page behaves as if initialized once with the first arguments. Events sent through the plugin before the client runs reach it once it runs, in order and exactly once (the newest 500), later ones at once, and the plugin passes every event on unchanged.',
 ['histories','schedules'],'all histories of events, initializations, script copies, waits and navigations with any server latency and outcome',
 'Tests start one client and send single events.',
 [T+'index.ts',T+'experiment.ts'],[('initialize, createPlugin',T+'index.ts'),('start',T+'experiment.ts')],['mutations, injections, requests, stored events, plugin results'])
p('T24','Injected code finds and keeps its elements until it is reverted',
 'Whatever way the page changes, waiting for an element resolves with it as soon as one matches, and once. An element to insert is inserted as soon as its parent (and the sibling it goes before) is there, in that place, and again whenever the page removes it, but at most ten times a second; the callback runs after each insertion and the promise resolves at the first. After the injection is reverted nothing is inserted or resolved any more.',
 ['histories','schedules'],'all histories of page changes, removals, bursts, waits and navigations',
 'There are no tests of these functions.',
 [T+'util/inject-utils.ts'],[('getInjectUtils',T+'util/inject-utils.ts'),('handleInject',T+'experiment.ts')],['document content, promises and callbacks of injected code'])
p('T25','Startup applies each flag once what it depends on is known, under its overlay',
 'On page load a flag the server decides about, or which depends on such a flag however indirectly, is applied only after the configurations were requested, or could not be fetched, and every other flag at once; a server flag known from an earlier page of the tab is applied at once with that configuration and then brought up to date. When fetching fails the last known or the bundled configuration counts. With a holdout or mutual exclusion group nothing is applied before the integration is ready, so that the identity is known; the configurations are requested once, with that identity, and not at all when every server flag is previewed. The anti-flicker overlay is up exactly while an active blocking server flag is outstanding or a redirect is under way, for at most a second.',
 ['schedules','histories','fault_sequences'],'all flag dependency graphs x configurations served over the visits of a tab x latencies, failures, late or failing integrations and previews',
 'Tests fix one or two flags, answer immediately and never look in between.',
 [T+'experiment.ts',T+'index.ts'],[('start, applyVariants',T+'experiment.ts'),('doFlags','packages/experiment-browser/src/experimentClient.ts')],['mutations applied at each moment','anti-flicker overlay','requests'])
p('T26','Behaviours decide variants, including history shared among subdomains',
 'At any time the user is targeted by exactly the behaviours the rules found to match, and flags show the variant for them: at load, after each event whether it was buffered or sent in a burst, and after the history of the visitor on other subdomains was merged, when server flags are fetched again if that changed a behaviour. Previewed flags are left alone. The shared history is read once per page from the frame of the configured address; when merged, every event known to the page is in it and the device keeps the union. A frame which is slow, silent, failing or has an invalid address is given up and removed, and the page works from its own history.',
 ['histories','schedules','fault_sequences'],'all histories of visits to subdomains, events, rules and behaviours of the frame',
 'Tests stub the relay client and check single calls.',
 [T+'experiment.ts',T+'subscriptions/subscriptions.ts',T+'behavioral-targeting/behavioral-targeting-manager.ts'],[('scheduleRelaySync, updateUserWithBehaviors',T+'experiment.ts'),('beginRelaySync',T+'behavioral-targeting/behavioral-targeting-manager.ts')],['user properties, mutations, requests, frames, stored and shared events'])
p('T27','The debug state tells the truth about flags, triggers and reasons',
 'At rest the debug state names the variant every flag really has, whether it is active, and for each of its page objects whether its URL conditions and its trigger passed, so that a page object passes exactly when it is active. It says which audience segment matched and what each dependency resolved to, calls a dependency blocking only when the flag is off because of it, and gives a reason exactly for flags which are off, naming the dependency which blocked them. With debugging switched on activations and URL changes are recorded in order, and subscribers learn within a moment, and not more than once in it, of each change of URL or active pages; with debugging off nothing is recorded or sent. Subscribers which left are not called.',
 ['histories','inputs'],'all histories of triggers and navigations x flag graphs, segments and users x ways to switch debugging on',
 'Tests build single states by hand and compare selected fields.',
 [T+'experiment.ts',T+'subscriptions/subscriptions.ts',T+'util/debug-recorder.ts'],[('buildFlagDebugInfo',T+'experiment.ts'),('getDebugPageObjects, scheduleDebugNotification',T+'subscriptions/subscriptions.ts'),('DebugRecorder',T+'util/debug-recorder.ts')],['getDebugState','calls of debug subscribers'])
p('T28','The page framework works on with links and nodes an experiment changed',
 'A plain click on a link of the page framework whose address an experiment has changed leads to the changed address and not to the one the framework holds: within the site through the router (or the history, with a popstate event), so that the flags of the new URL apply, elsewhere by loading the page, and exactly once. All other clicks are left alone: modified ones, other targets, links not changed, not changed any more, or not routed by a framework. Removing a node which is not, or no longer, a child of an element does nothing instead of throwing.',
 ['histories'],'all histories of clicks, link changes and back navigations; all histories of node moves and removals',
 'There are no tests of these functions.',
 [T+'util/spa-link-interceptor.ts',T+'util/patch.ts'],[('installSpaLinkInterceptor',T+'util/spa-link-interceptor.ts'),('patchRemoveChild',T+'util/patch.ts')],['URL, history, router calls, page loads, default actions of clicks, document'])
p('T29','The mobile editor shows the page in a device frame and mirrors its address',
 'When the visual editor runs in mobile mode, the page moves into a single device frame of the same address once the document is complete, and the editor is loaded only then. Whatever the frame does (loads, history calls which still reach it unchanged, going back, documents which cannot be read), the address and the active pages follow what the frame shows, without new history entries and keeping the history state; no experiment is applied. Inside the device frame the tag applies nothing but hands its mutator to the editor; in any other frame, or without mobile mode, the page behaves as if neither existed.',
 ['histories','inputs'],'all navigations of the frame, stages of the document, frames and stored mode values',
 'No test covers the shell.',
 [T+'util/shell.ts',T+'experiment.ts'],[('buildShell, syncIframeUrl, observeIframeSpaNav',T+'util/shell.ts'),('startOnce',T+'experiment.ts')],['frames, location.href, history, getActivePages(), scripts, mutations'])
p('T30','Without an integration of its own the page works with the Amplitude SDK',
 'On a page that sets no integration the tag shares the default connector with the analytics SDK, whichever of them loads first: targeting sees the identity the SDK announced or persisted for this API key, now and after each change, holdout and mutual exclusion groups wait for it at most a second and nothing else waits, and impressions reach the SDK exactly once, in order, within a second of it being able to receive them, those of earlier pages first. A page with an integration of its own leaves the connector alone.',
 ['histories','schedules'],'all histories of visits over the order of the scripts, persisted identities, times of announcement and of the event receiver, identity changes, targeting and groups',
 'Tests of the tag replace the integration.',
 [T+'experiment.ts',B+'integration/amplitude.ts',B+'integration/manager.ts'],[('start (default integration, ready)',T+'experiment.ts'),('AmplitudeIntegrationPlugin',B+'integration/amplitude.ts')],['mutations applied over time, getVariants(), events the analytics SDK receives'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
