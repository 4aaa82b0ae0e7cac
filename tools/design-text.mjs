// Hand-written sections of DESIGN.md (tools/mkdesign.mjs puts them together).
export const approach = `
## Approach

* **Subject.** Sources of \`/repo/packages/*/src\` (never \`dist\`) are bundled with esbuild at each run, with
  the workspace packages aliased to their sources. The private package \`dom-mutator\`, which cannot be
  installed here, is replaced by \`harness/lib/dom-mutator.mjs\`, which records mutations and their removal.
  Nothing is hooked in /repo: only public entry points, storage, cookies, requests, DOM and time are used,
  so that refactorings do not matter.
* **Simulated page.** A bundle is evaluated once per generated page load inside \`with (scope) {...}\`, where
  \`scope\` holds storage, cookies (with the scoping rules of a browser, \`lib/jar.mjs\`), location, history,
  fetch, messages, a virtual clock (timers, Date, performance), or a jsdom window where the code touches
  the DOM. Storage and cookies outlive a page, which gives reloads, tabs, hosts and crash points. No check
  waits for real time, so that seeds reproduce.
* **Search.** fast-check generates inputs or histories from an explicit seed (VERIF_SEED); the generators
  are structured so that guards are passed (values from shared pools, flags which refer to each other,
  operations weighted by state), and each part counts non-trivial cases by a stated rule and classes of
  cases; when a class is rarer than expected the run says so ("generator problem").
* **Oracle.** Per part one of: reference model (independent re-implementation of the documented
  behaviour), differential (two pages which must agree), metamorphic relation, or an invariant monitored
  over the history. A failure is shrunk and saved as \`replays/<id>-<part>.json\`; \`node harness/run.mjs <id>
  --replay FILE\` runs it again.
* **Evidence.** \`harness/lib/runner.mjs\` writes \`evidence/<id>.json\`: cases generated, distinct non-trivial
  cases, classes, samples, time.
* **Hangs.** Each check runs in a child watched by \`lib/watchdog.mjs\`: a case which does not end in 150 s is
  a violation with that case as replay.
* **Tiers.** quick: the numbers given first in brackets below (10–140 s each). thorough: the second number,
  stopped early by a time budget.
* **Limits of the family.** Searching shows violations and never their absence. Bounds are those of the
  generators: a few flags, pages, hosts and a few tens of operations per history.

Shared machinery: \`world.mjs\` (light page for the browser SDK), \`client.mjs\` (reference lookup and client
driver), \`refeval.mjs\`, \`geneval.mjs\` (reference evaluation and flag generator), \`tagworld.mjs\` (whole web
experiment script on jsdom pages: visitors, tabs, hosts, server), \`triggers.mjs\`, \`effects.mjs\` (models of
page triggers and of page effects), \`taglight.mjs\` (tag modules without DOM).
`;
export const alarms = `
## False alarms met and corrected

Each was raised by a check on the unchanged tree while it was built; the code was right (or the behaviour
is not specified) and the model, generator or statement was corrected.

* A01: cleared user properties read as \`{}\`. X03: stored arrays count as objects. X07: the model of the
  session lacked the documented session scope. E02/E05: the reference's own version expression backtracked.
* T17: a marker erased on denial. T04: retry ticks at the same instant. T14: nameless cookies. T08: timers
  of hidden tabs. T09: key order of page objects.
* T07: reverts inside a burst, pending click timers, the second run of a preview. T20: the hash is part of
  the metadata; a page left and come back to within one task is not observed.
* T06: redirects to a fragment of the same page; deduplication of equal bases; waits; reports carried twice
  by the URL; circles formed by the site's rewriting; the control variant of a remote flag cached; the
  application navigating while a redirect is under way.
* T03: caches of the browser SDK, among them the default user provider which stores its record again after
  a withdrawal in mid-session (the SDK runs without consent settings there).
* T15: rounding of first_seen. T01: \`client.plugin()\` forwards before the client runs.
* T21: an empty AMP_REDIRECT stays in the URL; any JSON in visual-editor-state counts as an open editor.
* T23: in preview mode a second script requests the preview configuration again.
* T24: elements of another document's tree; after the rate limit only a page change causes another look.
* T25: the snippet's overlay goes at once when a remote redirect is not blocking. T26: behaviour ids shared by
  several flags; an additional request when events before the merge changed behaviours.
* T16: the analytics library leaves "+" in campaign values undecoded.
`;
export const limits = `
## Not decided, or decided partly

* The behaviour of the real \`dom-mutator\` (private package, absent) is replaced by a stand-in: which
  mutations are in effect is decided, their rendering is not.
* jsdom has no layout: visibility is driven through the observer callbacks and style properties the code
  reads. Scroll percentages use a stated page height.
* Real browsers' throttling of timers, bfcache and storage partitioning are not modelled.
* React Native variants of the SDK are not part of this repository's packages.
* Ambiguous behaviour left out of the generators on purpose: hover or focus timers across a URL change,
  percentage 0 scroll triggers, inject ids shared by several actions, several mutate actions in a payload,
  sibling-combinator selectors, an empty scope list, several \`*\` in URL patterns, empty identities, cookie
  scope of IP-address hosts, callbacks of injected code which throw later, behaviour ids shared by flags,
  application navigation while a redirect is in flight.
`;
