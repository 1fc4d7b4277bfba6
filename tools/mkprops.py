#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  Source of truth for the property texts.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
TP='src/core/vsthreadpool.cpp'; VC='src/core/vscore.cpp'; VH='src/core/vscore.h'; VA='src/core/vsapi.cpp'
p('P01','Every frame request is answered exactly once',
 'Every frame request an application makes, asynchronous or blocking, is answered exactly once, with the frame number, node and user pointer it was made with, and with either a frame or an error message but never both or neither. Completion callbacks of asynchronous requests never run at the same time as one another, and they may themselves make further asynchronous or blocking requests. A request for a frame number outside the clip is answered with an error.',
 ['schedules','programs','fault_sequences'],
 'for every filter graph, every mix of asynchronous and blocking requests from any number of application threads and from completion callbacks, every thread interleaving, thread count, memory limit, filter failure and filter delay',
 'The tests request a few frames from Python, one graph and one schedule at a time; a lost or doubled completion needs a particular interleaving of request merging, cache hits, flushes and callbacks.',
 [TP,VA,VC,VH],[('request queueing, merging and answering',TP+': startExternal, startInternalRequest, runTasks, returnFrame'),('blocking wait',VA+': getFrame, frameWaiterCallback, getFrameAsync')],
 observe=['completion callback','return value of a blocking request'])
p('P02','The delivered frames do not depend on how the work was scheduled',
 'The frame delivered for a given frame number of a given node has the contents and properties that evaluating the filter graph one request at a time would give. Thread count, interleaving, merging of identical requests, caching, cache eviction, memory pressure and which other frames were requested never change it.',
 ['schedules','programs','histories','configurations'],
 'for every acyclic filter graph made of filters that obey the filter API, every request history, every thread interleaving and every cache and memory configuration',
 'The unit tests compare a handful of frames from linear graphs rendered in request order on one machine; which frame reaches which consumer under merging and eviction depends on the schedule.',
 [TP,VC,VH,VA],[('handing produced frames to waiting consumers',TP+': runTasks'),('per-node frame cache',VC+': VSCache::insert, VSCache::object, VSNode::getFrameInternal, VSNode::getCachedFrameInternal'),('picking a requested frame',VA+': getFrameFilter')],
 observe=['contents and properties of delivered frames'])
p('P03','A filter is never entered more concurrently than its mode allows',
 'For one instance of a filter, at most one thread at a time is inside its frame function if the filter is unordered, at most one thread at a time is inside it for the produce step if it parallelises only its requests, and if it keeps per-frame state then no other frame is started before the current one has been finished or has failed. A fully parallel filter is not limited by such rules, so its instances may be entered by several threads at once.',
 ['schedules','programs'],
 'for every graph mixing filters of the four modes, every request pattern and failure pattern, every thread interleaving and thread count',
 'No test instruments filter entry; overlap only shows with more than one worker thread and an unlucky interleaving.',
 [TP,VH],[('per-instance exclusion and frame ownership',TP+': runTasks (serialMutex, serialFrame, serialOwner)')],
 state=[('serialMutex','held while an exclusive call runs',VH),('serialFrame/serialOwner','frame a stateful filter is in the middle of',VH)],
 observe=['entry and exit of filter frame functions'])
p('P04','Filters are activated by the documented request protocol',
 'For each production of a frame a filter is first called once with the initial reason, and is called again only after every frame it requested since its last call is available, or with the error reason if one of them failed or the frame number asked for does not exist. Each requested frame can then be fetched by its node and frame number and stays available until it is released or the production ends, and the per-production pointer the filter stored is handed back unchanged. After returning a frame or setting an error a filter is not called again for that production.',
 ['schedules','programs','fault_sequences'],
 'for every graph, including filters that request in several rounds, request the same frame twice, request past the end of a clip or release frames early, every schedule and every pattern of failing dependencies',
 'Only the built-in filters are exercised by the tests, in their usual request patterns and with every dependency succeeding.',
 [TP,VA,VC],[('activation reason and counting of outstanding requests',TP+': runTasks, startInternalRequest'),('available frames',VA+': requestFrameFilter, getFrameFilter, releaseFrameEarly')],
 observe=['arguments of filter frame function calls','frames obtained inside a filter'])
p('P05','A filter error reaches exactly the requests that depend on it',
 'When a filter fails to produce a frame, every pending request whose result needs that frame fails with the failing filter\'s message, and every request that does not need it is unaffected. A failure is never remembered: a later request for the same frame runs the filter again and succeeds if the filter then succeeds. After any number of failures the engine keeps answering requests and no memory, frame or filter instance is lost.',
 ['fault_sequences','schedules','programs'],
 'for every graph, every set of (filter, frame, attempt) failures in any activation step, every schedule and every pattern of merged and cached requests',
 'The tests provoke single errors in single requests; propagation through merged requests, several failing dependencies at once, and reuse after failure need fault sequences crossed with schedules.',
 [TP,VC,VA],[('error state of a production and its propagation to dependants',TP+': runTasks'),('first error wins',VC+': VSFrameContext::setError'),('error to caller',TP+': returnFrame; '+VA+': frameWaiterCallback')],
 observe=['error message passed to each completion','later success of the same frame'])
p('P06','No more filter calls run at once than the configured thread count',
 'The number of filter frame functions executing simultaneously never exceeds the configured number of worker threads, and a change of the thread count takes effect once calls already running have returned. A worker that blocks inside a completion callback waiting for another frame gives its place to another worker for as long as it waits, so that work can go on even with a thread count of one.',
 ['schedules','configurations','histories'],
 'for every thread count, every sequence of thread-count changes made while frames are being processed, every graph and schedule and every nesting of blocking requests in callbacks',
 'Tests set the thread count, if at all, before requesting; they do not count concurrent filter calls.',
 [TP],[('active worker accounting',TP+': runTasks, wakeThread, spawnThread, startExternal, returnFrame, setThreadCount')],
 state=[('activeThreads/idleThreads/maxThreads','worker accounting',VH)],
 observe=['number of threads inside filter frame functions'])
p('P07','Requests always finish and the core can always be shut down',
 'As long as filters return, every outstanding request completes after a bounded amount of further work, and freeing a core after its requests have completed terminates. This holds with any thread count including changes while running, with spurious wakeups and stalled threads, when memory use stays above the configured limit, and when completion callbacks wait for further frames.',
 ['schedules','fault_sequences','configurations','histories'],
 'for every graph, request history, thread count, memory limit and sequence of delays, stalls, clock jumps and wakeups, under every schedule that does not starve a thread for ever',
 'A test run that does not hang shows one schedule that does not hang; lost wakeups and flush-related deadlocks need a specific interleaving together with memory pressure lasting for seconds.',
 [TP,VC,VA],[('worker wakeup, parking and flush',TP+': runTasks, wakeThread, waitForDone, startExternal, ~VSThreadPool'),('core shutdown',VC+': VSCore::freeCore')],
 observe=['completion of all requests within a bounded number of steps','return of the core shutdown call'])
p('P08','Frame memory is accounted exactly and buffers are never shared by accident',
 'The memory use a core reports equals the total size of the frame buffers that are alive, and it is back to zero once every frame has been released. Two frame buffers alive at the same time never overlap, also when buffers are recycled, and whenever a pooled buffer is returned, or the limit is changed, recycled memory held back for reuse is given up until live plus held memory is within the configured limit or nothing is held back any more.',
 ['schedules','histories','configurations'],
 'for every sequence and interleaving of frame allocations, copies, releases and memory-limit changes from any number of threads, for buffer sizes on both sides of the pooling threshold',
 'The tests never look at the buffer pool or at accounting under concurrency; races between reuse, garbage collection and limit checks need specific interleavings.',
 ['src/core/memoryuse.cpp','src/core/memoryuse.h',VC],[('allocation, pooling and garbage collection','src/core/memoryuse.cpp: allocate, deallocate, gc_freelist'),('plane buffer lifetime',VC+': VSPlaneData')],
 observe=['reported memory use','addresses and contents of frame buffers'])
p('P09','Frame caches stay within their configured size and yield under memory pressure',
 'A node whose cache is fixed at a size never holds more frames than that, a node with caching disabled holds none, and clearing a cache releases everything it holds. While memory use is over the limit, cached frames of nodes that are not fixed are released until use falls below the limit or nothing evictable is left (fixed ones only when the pressure lasts for seconds), and frames in use elsewhere stay valid. What a cache holds for a frame number is always the frame produced for that number.',
 ['histories','schedules','configurations'],
 'for every history of requests, cache-mode and cache-option changes and limit changes, every graph shape that switches automatic caching on or off, every passage of time between requests, and every schedule',
 'Tests do not observe what is cached; eviction depends on the clock, on hit history and on memory pressure together.',
 [VC,VH,TP],[('LRU cache with history',VH+': VSCache; '+VC+': VSCache::insert, object, adjustSize, dropLRUFrames'),('pressure sweep',VC+': VSCore::notifyCaches; '+TP+': runTasks'),('automatic cache decisions',VC+': VSNode::updateCacheState, setCacheMode, setCacheOptions, setLinear')],
 observe=['live frames per node','reported memory use','repeat calls of a filter for the same frame'])
p('P10','Frames and maps are values: changing a copy never changes the original',
 'Once a frame has been delivered or handed to another consumer, its pixels, samples and properties never change for anyone still holding it. Writing to a copy, or to a frame that shares planes, properties or arrays with others, changes only that copy. This holds whichever threads hold the other copies and whatever they do with them at the same time.',
 ['schedules','histories','programs'],
 'for every history of copies, plane sharing, property edits and releases across any number of threads, and every interleaving of them',
 'Tests check single-threaded copies; a lost copy-on-write needs two holders racing on the same storage.',
 [VC,VH,VA],[('plane copy on write',VC+': VSFrame::getWritePtr, VSPlaneData'),('map and array copy on write',VH+': VSMap::detach, VSArray, intrusive_ptr')],
 observe=['contents of every held frame and map over time'])
p('P11','Filters, functions and cores are freed exactly once and never while in use',
 'A filter instance is freed exactly once, after the last reference to its node is gone and never while one of its frame functions is running or still to run, and each function object\'s user data is freed exactly once. Frames may outlive the filter and the core that made them, nodes on which no request is pending may be released in any order and from any thread, and once everything is released nothing is left allocated. Nothing is used after it has been freed.',
 ['schedules','histories','programs','fault_sequences'],
 'for every order and interleaving of releasing nodes, frames, functions and the core, with requests in flight while the application drops its node references, for every graph',
 'Tests let the interpreter tear things down in one order; premature or missing release depends on the interleaving of the last references.',
 [VC,VH,VA,'src/core/memoryuse.cpp'],[('node and instance lifetime',VC+': VSNode::~VSNode, destroyFilterInstance, filterInstanceDestroyed'),('core lifetime',VC+': VSCore::freeCore, ~VSCore'),('memory manager lifetime','src/core/memoryuse.cpp: on_core_freed')],
 observe=['filter free callbacks','function free callbacks','access to freed memory'])
p('P12','API calls documented as thread-safe do not race',
 'Threads that use the same core at the same time, requesting frames, creating and invoking filters, reading node and frame information, reading and copying shared frames and maps, logging, and changing cache, thread-count and memory settings, never make conflicting unsynchronised accesses to engine state.',
 ['schedules','programs'],
 'for every combination of concurrent API calls from application threads, filters and callbacks that the documentation allows, and every interleaving',
 'A data race is a property of pairs of accesses under all schedules; the tests run one schedule without a race detector.',
 [VC,VH,VA,TP,'src/core/memoryuse.cpp','src/core/vslog.cpp'],[('locks and atomics of the engine','src/core/*'),('plugin function table',VC+': VSPlugin::invoke, registerFunction')],
 observe=['memory accesses and synchronisation of every thread'])
p('P13','Log messages reach every registered handler exactly once and in order',
 'Every message logged while a handler is registered is passed to that handler exactly once, with its level and text, and messages from one thread arrive in the order they were logged, those that handlers log themselves counting separately. The first few hundred messages logged while no handler exists are kept and replayed in order, once, to the next handler, up to a bound, and once removal of a handler has returned the handler is not called again and its user data has been freed exactly once. A handler may itself log without deadlock.',
 ['schedules','histories'],
 'for every interleaving of logging, adding and removing handlers on any number of threads, including logging from inside handlers and from filters, and any number of early messages',
 'The tests attach one handler in one thread.',
 [VC,'src/core/vslog.cpp',VA],[('handler list and stored messages',VC+': VSCore::logMessage, addLogHandler, removeLogHandler'),('process-wide handlers','src/core/vslog.cpp')],
 observe=['handler invocations','handler free callbacks'])
p('P14','The command-line renderer writes every frame once, in frame order',
 'The renderer writes exactly the requested frame range, every frame once and in frame order, byte for byte as its planes in documented order, with alpha following colour where there is alpha and with the headers and per-frame markers of the selected container. Timecode and property side files have one entry per output frame, in order. None of this depends on the order or timing in which frames complete, and a filter error ends the run with a failing exit status and no later frame written.',
 ['schedules','inputs','configurations','fault_sequences'],
 'for every output node, frame range, number of outstanding requests, container and side-file option, every completion order and every failing frame',
 'The tests run the renderer a few times on tiny constant clips, where completion order almost never differs from frame order.',
 ['src/vspipe/vspipe.cpp','src/vspipe/vsjson.cpp','src/common/wave.cpp'],[('reordering and writing','src/vspipe/vspipe.cpp: frameDoneCallback, outputFrame, outputNode')],
 observe=['bytes of the output and side files','exit status'])
p('P15','The command-line renderer never reports success when output was lost',
 'If any byte of the main output, the timecodes or the property file could not be written, because of a full disk, an I/O error or a short write at any point including the final flush, the renderer stops in bounded time and exits with a failing status, and what has been written is a prefix of the correct output. It exits successfully only if everything was written.',
 ['fault_sequences','crash_points','schedules'],
 'for every write of every output file at which a fault can strike, every kind of write fault and every completion order of the frames',
 'The tests never make a write fail.',
 ['src/vspipe/vspipe.cpp'],[('write error handling','src/vspipe/vspipe.cpp: outputFrame, frameDoneCallback, outputNode, main')],
 observe=['exit status','bytes that reached the file'])
p('P16','Linear filters see mostly sequential requests and stay correct when they do not',
 'A source that declared itself linear delivers the right frame for every request in any order, and frames it hands to the cache on the side are delivered, to later requests for their own number, without running the filter again while they are still cached. The cache it is given is at least as large as the look-ahead distance the engine told the filter to use. A linear source made for API 3 is called, on a short jump ahead, for every frame it passes over, in order.',
 ['schedules','histories','configurations'],
 'for every linear filter that caches the frames it passes over, every request order, cache clearing and memory pressure, and every schedule',
 'No test uses a linear filter.',
 [VC,VA],[('linear mode',VC+': VSNode::setLinear, cacheFrame'),('API 3 compatibility wrapper',VC+': VSNode constructor for API 3, getFrameInternal')],
 observe=['frame numbers the filter is called for','delivered frames'])
p('P17','Iterating frames from Python yields every frame once, in order',
 'Iterating the frames of a clip yields every frame exactly once and in order whatever the prefetch and backlog settings, never has more requests outstanding than the prefetch nor more than backlog frames outstanding or waiting together, raises the error of the first failing frame at that frame\'s place, and leaves no request unanswered and no frame leaked when closed or dropped early. Asynchronous single-frame requests resolve their future, or call their callback, exactly once with the frame or the error. Writing a clip to a file object writes every frame completely and in order and raises the error of the first failing frame or write.',
 ['schedules','configurations','fault_sequences'],
 'for every prefetch and backlog setting, clip length, failing frame and point of abandoning the iteration, and every completion order of the underlying requests',
 'The tests iterate short clips whose frames complete almost in order.',
 ['src/cython/vapoursynth.pyx'],[('windowed iteration','src/cython/vapoursynth.pyx: RawNode.frames'),('futures','src/cython/vapoursynth.pyx: get_frame_async, frameDoneCallback'),('writing a clip','src/cython/vapoursynth.pyx: VideoNode.output')],
 observe=['order of yielded frames','number of outstanding requests'])
p('P18','Built-in clip-editing filters stay frame exact under any schedule',
 'Clips built from the built-in trimming, reversing, looping, splicing, interleaving, selecting, duplicating, deleting and freezing filters, their audio counterparts and the audio channel shuffling filter, deliver for every output frame or sample exactly the source frame or sample documented for that position. Filters that evaluate user functions per frame deliver for frame n the result of the function for n. This holds whatever the thread count, request order and memory pressure, and whichever source frames fail.',
 ['programs','inputs','schedules','fault_sequences'],
 'for every composition of these filters with every valid argument, every clip length, request order and schedule, and every failing source frame',
 'The tests check single filters with a few arguments in request order.',
 ['src/core/reorderfilters.cpp','src/core/audiofilters.cpp','src/core/simplefilters.cpp'],[('frame number mapping','src/core/reorderfilters.cpp'),('sample mapping across audio frame boundaries','src/core/audiofilters.cpp'),('per-frame evaluation','src/core/simplefilters.cpp: FrameEval, ModifyFrame, BlankClip')],
 observe=['source frame or sample numbers found in delivered frames'])
p('P19','Plugin loading survives damaged plugin directories',
 'A core can always be created, whatever the plugin directories hold, and loading all plugins of a directory (at start-up, from VAPOURSYNTH_EXTRA_PLUGIN_PATH or on request) registers exactly once every loadable plugin that the directory tree or a manifest in it names, and no other, even if further entries are missing, unreadable, truncated, not plugins, of an unsupported API version or clash with plugins already loaded; a manifest of any length counts in full and stops the search below its directory. A plugin whose load fails leaves nothing registered and its library unloaded; one that succeeds has all its functions callable under its identifier and namespace, and concurrent loads of one plugin succeed once. A requested load that fails gives an error, a manifest that cannot be used and a plugin it declares that cannot be loaded give a log message, and none of this crashes.',
 ['fault_sequences','inputs','histories'],
 'for every directory content and manifest content, every failing or short file operation during the scan, and every failing library load',
 'Tests load one good plugin directory.',
 [VC],[('directory scan and manifest',VC+': VSCore::loadAllPluginsInPath, loadPluginManifest'),('plugin loading',VC+': VSCore::loadPlugin, VSPlugin::VSPlugin')],
 observe=['functions available after loading','log messages'])
p('P20','Registering the installation survives crashes, failures and company',
 'If registering this installation in the per-user configuration file is interrupted at any point by a crash, a power failure or a failing file operation, the file afterwards holds either its complete old contents or its complete new contents, so that entries of other installations are never lost, and a later registration succeeds. This also holds when several installations register themselves at the same time. A registration that reports success has stored its entry and kept all others, whatever characters paths consist of and even if parts of the file could not be parsed.',
 ['crash_points','fault_sequences','schedules','inputs'],
 'for every prior content of the configuration file, every crash point between file operations, every failing or short file operation, and every interleaving of registrations',
 'The tests never run the command, interrupt it or make a write fail.',
 ['src/py/_utils.py','src/py/_shell.py'],[('configuration update','src/py/_utils.py: vapoursynth_config'),('atomic replacement','src/py/_shell.py: replace_file')],
 observe=['contents of the configuration file after a crash or a failure','what the command prints'])
p('P21','Destroying a Python environment is complete, final and never waits for ever',
 'Destroying an environment waits for every request made through its nodes, runs the callbacks registered for its destruction once each with that environment active, and then releases all its nodes, frames and its core, so that any later use of an object that belonged to it raises an error instead of touching freed memory. This holds from whichever thread the environment is destroyed, with requests still being made, filters still being created, messages logged and clips written, and with failing or re-entering callbacks, always terminates, and leaves the objects and requests of other environments untouched. User functions and completion callbacks run with the environment of their node or request active, and every thread gets back the environment it had before.',
 ['schedules','histories','programs','fault_sequences'],
 'for every set of environments, nodes, frames, iterators and pending requests, every thread that uses or destroys them, every kind of destruction callback, and every interleaving',
 'The tests destroy environments only from the thread that made them, with no request pending.',
 ['src/cython/vapoursynth.pyx'],[('destruction of environments','src/cython/vapoursynth.pyx: EnvironmentData, EnvironmentPolicyAPI.destroy_environment, unregister_policy'),('per-thread environments','src/cython/vapoursynth.pyx: _env_current, use_environment, frameDoneCallback, publicFunction')],
 observe=['objects alive after the destruction','errors raised by later uses','environment seen by callbacks'])
p('P22','Setting the script variable never damages shell start-up files',
 'If adding the library path to the shell start-up files is interrupted at any point by a crash, a power failure or a failing file operation, each of these files afterwards holds either its complete old contents or its complete new contents, symbolic links included. No line of the user is ever lost or changed, byte for byte. A file that is reported as updated or created sets the variable to the new path.',
 ['crash_points','fault_sequences','schedules','inputs'],
 'for every shell, every set of start-up files and contents, every crash point between file operations, every failing or short file operation, and concurrent commands',
 'The tests never run the command, interrupt it or make a write fail.',
 ['src/py/_shell.py','src/py/_utils.py'],[('start-up file update','src/py/_shell.py: update_shell, replace_file')],
 observe=['contents of the start-up files after a crash or a failure','what the command prints'])
p('P23','Scripts of an application stay isolated, report how they end, and go away',
 'Whatever scripts an application creates, evaluates, queries, calls into and frees, from whichever threads and at the same time, each script has its own core, variables and outputs, and its code, its functions and its completion callbacks run in its own environment and never leave a thread in it. A script that fails or exits reports exactly that, with its own error and exit code, and leaves every other script, the working directory and the application untouched. Freeing a script ends in bounded time, even with requests outstanding, runs its destruction callbacks once with its variables still in place, and releases its core and everything given to it; nothing the application does with a script can block for ever because of the interpreter lock.',
 ['schedules','histories','programs','fault_sequences'],
 'for every set of scripts and script texts, every order of operations by every number of application threads, every failure in a script or one of its frames, and every interleaving',
 'The tests evaluate one script after the other on one thread and never free one with work outstanding.',
 ['src/vsscript/vsscript.cpp','src/cython/vapoursynth.pyx'],[('script interface','src/vsscript/vsscript.cpp: createScript, evaluateBuffer, freeScript, getVariable, setVariable'),('script environments','src/cython/vapoursynth.pyx: vpy4_*, VSScriptEnvironmentPolicy, _vpy_evaluate, PythonVSScriptLoggingBridge, Func.__call__')],
 observe=['results, errors and exit codes returned to the application','variables, outputs and frames of every script','core and environment seen by every piece of script code','cores and functions alive after scripts were freed'])
p('P24','Frames, views and properties in the hands of Python code are values of their own',
 'Whatever Python code does with the frames it requests, creates and copies, each frame shows exactly the pixels and properties it has been given: a copy and its original never change with one another, whether they are written through views of their planes, write pointers or properties, in whatever order and however often views were taken before; views show what was last written and stay valid after their frame is closed, dropped, or its environment destroyed. What is set as a property is what is read back, of every type, and a value that is refused leaves nothing of itself behind; frames that are not the caller\'s own cannot be written at all. Closed frames, and frames of a destroyed environment, are refused instead of used, and no combination of closing, changing, iterating and sharing frames between threads corrupts memory, blocks for ever or keeps frames or cores alive.',
 ['programs','histories','schedules','fault_sequences'],
 'for every sequence of operations on frames, their planes and properties by every number of threads, every frame format, every property value and every interleaving with renders, garbage collection and the destruction of the environment',
 'The tests use each operation once, on one frame on one thread, and look at the result immediately.',
 ['src/cython/vapoursynth.pyx','src/core/vscore.cpp','src/core/vscore.h'],[('frames in Python','src/cython/vapoursynth.pyx: RawFrame, VideoFrame.copy, VideoFrame.__getitem__, VideoFrame.readchunks, _frame.getdata'),('frame properties in Python','src/cython/vapoursynth.pyx: FrameProps'),('copy on write','src/core/vscore.cpp: VSFrame::getWritePtr, VSFrame::VSFrame(const VSFrame &)')],
 observe=['pixels shown by every frame, view and pointer','properties of every frame after every change','errors raised for closed, read only and destroyed frames','frames and cores alive at the end'])
p('N01','Pixel and sample arithmetic of the built-in filters matches its definition',
 'For every input clip, format and valid argument, each built-in image and audio filter computes the values its documentation defines, identically on every supported CPU feature level.',
 ['inputs','configurations'],'for every frame content, format, argument and CPU level',
 'The tests sample a few formats and argument values.',
 ['src/core/genericfilters.cpp','src/core/mergefilters.cpp','src/core/lutfilters.cpp','src/core/audioresampling.cpp','src/core/kernel'],[('kernels','src/core/kernel')])
p('N02','Compiled expressions compute the same values as interpreted ones',
 'For every valid expression and input the compiled and the interpreted evaluation give the same pixel values, and every invalid expression is rejected with an error.',
 ['inputs','programs','configurations'],'for every expression string, format and pixel content',
 'The tests sample a list of expressions.',
 ['src/core/exprfilter.cpp','src/core/expr'],[('expression compiler','src/core/expr')])
p('N03','Function signatures and arguments are parsed and checked as documented',
 'Every argument string following the documented grammar is accepted and every other one rejected, and an invocation reaches the function only if its arguments match the signature.',
 ['inputs'],'for every signature string and argument map',
 'The tests use a few signatures.',
 [VC],[('signature parser',VC+': VSPluginFunction::parseArgString, invoke')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
