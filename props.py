# The properties and how each one is decided: properties.jsonl, MANIFEST.json and
# check.py are all derived from this file (python3 gen.py rewrites the first two).

WORLD = ('Cases are random worlds: 1 to 3 frame graphs over the mock device, with images (2D/3D, mips, layers, colour/depth/stencil, '
         'external or owned), buffers and passes of every kind, run for several frames with random pass toggling, index changes and graph '
         'inputs/outputs. A case is non-trivial when its world has at least two passes; two cases are distinct when the hash of the '
         'passes, attachments, ranges and executed event stream differ.')
A_MOCK = 'the mock driver, which stands for the Vulkan device and replays every submitted command buffer, is faithful to the Vulkan specification for what the library uses'
A_GPU = 'no real GPU is involved: what is judged is the sequence of Vulkan calls and commands the library produces'
A_SCOPE = 'depth and stencil aspects of a same image are not given different layouts in the generated worlds'

SCALE = 3  # all the quick counts below are multiplied by it

def P(id, title, statement, over, qtext, why, files, mechanism, cases, match, state=(), observe=(), level='exploration',
      technique='runtime monitoring of random frame graphs over an instrumented mock Vulkan device, under ASan+UBSan',
      note=None, rule=WORLD, needs=(), assumptions=(A_MOCK, A_GPU, A_SCOPE), builds=('asan',), thorough=12, jobs=None):
    d = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism,
             cases=[(n, c * SCALE) for n, c in cases], match=match, state=list(state), observe=list(observe), level=level, technique=technique, note=note,
             rule=rule, needs=list(needs), assumptions=list(assumptions), builds=list(builds), thorough=thorough)
    if jobs: d['jobs'] = jobs
    PROPS.append(d)

PROPS = []
RG = 'source/RenderGraph/'
RP = RG + 'RunnablePasses/'
OBS = ['every vkCmd* of the submitted command buffers, replayed by harness/mock.cpp', 'markers recorded by the user callbacks of the passes']
NOTE_W = ('Exploration: the verdict is about the executions observed (counts in the evidence file). Trusts the mock device (harness/mock.cpp) and the '
          'reference model (harness/world.cpp).')

P('P01', 'Every enabled pass runs exactly once per frame, after everything it depends on',
  'Every graph of valid passes whose dependencies form no cycle compiles, and each time it is run, every enabled pass is recorded and executed exactly once, as one contiguous block, '
  'and no pass of another graph is. A pass is executed after every enabled pass it depends on, directly or through other passes, even through disabled ones. '
  'The order does not depend on the order in which passes were declared or listed as dependencies being favourable.',
  ['programs', 'histories'], 'All acyclic pass dependency structures, declaration orders, kinds of passes, numbers of graphs and groups, toggling histories over frames.',
  'The tests run a few hand written graphs, in a favourable declaration order, and mostly check that compiling does not throw; the guarantee is about every dependency structure and every history of frames.',
  [RG + 'FrameGraph.cpp', RG + 'RunnableGraph.cpp', RG + 'GraphBuilder.cpp', RG + 'RunnablePass.cpp'],
  [{'name': 'pass sorting', 'where': RG + 'FrameGraph.cpp: sortPasses'}, {'name': 'pass recording loop', 'where': RG + 'RunnableGraph.cpp: RunnableGraph::record'}, {'name': 'single pass recording', 'where': RG + 'RunnablePass.cpp: RunnablePass::recordInto'}],
  [('core', 4000), ('kinds', 2500), ('toggle', 2500), ('graphs', 2000), ('big', 800), ('multi', 1500)],
  [r'order\|', r'struct\|callback', r'enabled\|disabled-executed'], observe=OBS, note=NOTE_W, needs=['pass executions checked', 'dependencies checked'])

P('P02', 'Every image transition starts from the layout its subresource really is in',
  'In every submitted frame, each image barrier and each render pass names as source layout the one every subresource it covers really is in at that point of the execution, or deliberately gives up its content. '
  'No transition ever leads to the undefined layout, and this holds per mip level and per array layer (or depth slice), for every view, over any number of frames and graphs.',
  ['programs', 'histories'], 'All combinations of passes, views over parts of an image, frames, pass toggles, graph inputs and cooperating graphs.',
  'The tests run against stubs which accept any layout: no barrier is ever compared with the state of the image it names.',
  [RG + 'RecordContext.cpp', RG + 'LayerLayoutStatesHandler.cpp', RG + 'RunnablePass.cpp', RP + 'RenderPassHolder.cpp', RG + 'RunnableGraph.cpp'],
  [{'name': 'layout tracking', 'where': RG + 'RecordContext.cpp: setLayoutState/getLayoutState'}, {'name': 'image barriers', 'where': RG + 'RecordContext.cpp: memoryBarrier'}, {'name': 'render pass initial/final layouts', 'where': RP + 'RenderPassHolder.cpp'}, {'name': 'layouts of the previous frames', 'where': RG + 'RunnableGraph.cpp: getCurrentLayoutState'}],
  [('core', 3000), ('rp', 2500), ('kinds', 2500), ('xfer', 1200), ('merged', 1500), ('sepds', 1500), ('graphs', 1500), ('history', 1500), ('toggle', 2500), ('rptoggle', 1500), ('multi', 1000), ('big', 300), ('again', 1500)],
  [r'layout\|'], state=[{'name': 'layout states', 'meaning': 'known layout, access and stages of each subresource', 'where': 'include/RenderGraph/LayerLayoutStatesHandler.hpp'}], observe=OBS, note=NOTE_W, needs=['barriers replayed', 'subresource checks'])

P('P03', 'When a pass runs, each of its images is in the layout its declared use requires',
  'When the commands of a pass execute, each subresource of each image view it declared is in the layout which corresponds to the declared use: sampled, storage, transfer source or destination, colour, depth or stencil attachment, read only or written, or the explicitly wanted implicit one. '
  'Attachments of render passes are in that layout during the subpass. This holds for the views of the pass index being run, whatever ran before in this frame or previous ones.',
  ['programs', 'histories', 'configurations'], 'All kinds of uses, views, mip levels, layers and pass indices, after any history; with and without separate depth/stencil layouts.',
  'The tests never look at the layout of an image when a pass executes: their stubs keep no image state.',
  [RG + 'RunnablePass.cpp', RG + 'Attachment.cpp', RG + 'RecordContext.cpp', RP + 'RenderPassHolder.cpp'],
  [{'name': 'barriers before a pass', 'where': RG + 'RunnablePass.cpp: recordInto'}, {'name': 'use to layout table', 'where': RG + 'Attachment.cpp: Attachment::getImageLayout'}],
  [('core', 3500), ('rp', 3000), ('kinds', 2500), ('multi', 1500), ('sepds', 2000), ('merged', 1500), ('toggle', 1500), ('graphs', 1500)],
  [r'declared\|'], observe=OBS, note=NOTE_W, needs=['declared layouts checked', 'render pass instances checked'])

P('P04', 'What a pass reads is what the last pass which wrote it left',
  'The content a pass finds in each subresource of an image, or part of a buffer, it reads is the one left by the last executed pass which wrote it, in this frame or a previous one, in this graph or one it depends on. '
  'No transition, render pass or clear in-between discards or replaces it. An attachment declared as input is never cleared nor discarded.',
  ['programs', 'histories'], 'All producer/consumer chains across passes, kinds of uses, frames, pass toggles, mip levels, layers and graphs.',
  'The tests have no notion of content: a barrier which discards an image, or a wrong load operation, goes unnoticed by their stubs.',
  [RG + 'RecordContext.cpp', RG + 'RunnablePass.cpp', RP + 'RenderPassHolder.cpp', RG + 'Attachment.cpp', RG + 'RunnableGraph.cpp'],
  [{'name': 'source layout of transitions', 'where': RG + 'RunnableGraph.cpp: getCurrentLayoutState'}, {'name': 'load/store operations', 'where': RG + 'Attachment.cpp and ' + RP + 'RenderPassHolder.cpp'}],
  [('rptoggle', 1000), ('core', 3000), ('rp', 3000), ('kinds', 2500), ('history', 2500), ('toggle', 2000), ('graphs', 1500), ('buffers', 1500), ('merged', 1000), ('multi', 1000), ('again', 1500)],
  [r'data\|'], observe=OBS, note=NOTE_W, needs=['image reads of known content', 'buffer reads checked'])

P('P05', 'Reported final states are the real ones, and dependent graphs start from them',
  'After a graph was run, the layout it reports for each subresource of each image it used is the layout the subresource really is in. '
  'A graph which depends on other graphs starts from the states they left, the most recent one winning, and takes images it shares with them over without losing their content.',
  ['programs', 'histories'], 'All chains and diamonds of up to three graphs sharing images, over several frames, with pass toggles and partial image uses.',
  'Tests query final states on stubs, without an image state to compare them with, and never chain graphs over several frames.',
  [RG + 'FrameGraph.cpp', RG + 'RunnableGraph.cpp', RG + 'RecordContext.cpp', RG + 'LayerLayoutStatesHandler.cpp'],
  [{'name': 'final state registration', 'where': RG + 'FrameGraph.cpp: registerFinalState'}, {'name': 'states of dependencies', 'where': RG + 'RunnableGraph.cpp: record / ' + RG + 'RecordContext.cpp: addStates'}],
  [('graphs', 4000), ('shared', 4000), ('core', 1500), ('rp', 1500), ('toggle', 1500), ('history', 1500), ('all', 800), ('again', 2000)],
  [r'final\|', r'layout\|barrier-old-layout', r'layout\|rp-initial-layout'], observe=OBS + ['the final states returned by the graph'], note=NOTE_W, needs=['final layouts checked'])

P('P06', 'Graph outputs are left in the requested layout, and graph inputs are honoured',
  'An image view declared as an output of a graph is left in the output layout by the last pass which uses it in each run, whatever the kind of that pass. '
  'An image declared as an input with a given layout is taken over from that layout without losing its content.',
  ['programs', 'histories'], 'All kinds of last users of an output, output layouts, partial views, external inputs, over several frames.',
  'One or two tests declare inputs and outputs, with a single kind of pass, and no image state to compare.',
  [RG + 'RunnableGraph.cpp', RG + 'FrameGraph.cpp', RG + 'RecordContext.cpp', RP + 'RenderPassHolder.cpp'],
  [{'name': 'output transitions', 'where': RG + 'RunnableGraph.cpp: doRecordOutputs, getNextLayoutState'}, {'name': 'graph inputs', 'where': RG + 'FrameGraph.cpp: addInput, getInputLayoutState'}],
  [('core', 4000), ('rp', 3000), ('kinds', 3000), ('xfer', 1500), ('toggle', 1500), ('history', 1500)],
  [r'output\|', r'layout\|barrier-old-layout', r'layout\|rp-initial-layout'], observe=OBS, note=NOTE_W, needs=['output layouts checked'])

P('P07', 'Passes accessing the same data are separated by sufficient barriers',
  'Whenever two passes of a graph access the same image subresource or buffer range and at least one of them writes, the commands between them make the second wait for the first, '
  'on the pipeline stages which really perform the accesses, and make writes available and visible to the later access. Transitions of an image wait for its previous accesses and are waited for by the next ones, and every barrier names valid non empty stages.',
  ['programs', 'histories'], 'All pairs of uses (image and buffer, read and write, every kind of pass) and orders, with other passes in-between.',
  'Execution on stubs is sequential: a missing barrier changes nothing there. Which pairs of uses race depends on the whole graph.',
  [RG + 'RecordContext.cpp', RG + 'RunnablePass.cpp', RG + 'Attachment.cpp', RP + 'RenderPassHolder.cpp', RP + 'BufferCopy.cpp'],
  [{'name': 'image and buffer barriers', 'where': RG + 'RecordContext.cpp: memoryBarrier'}, {'name': 'subpass dependencies', 'where': RP + 'RenderPassHolder.cpp'}, {'name': 'stages and accesses per use', 'where': RG + 'Attachment.cpp: getAccessMask, getPipelineStageFlags'}],
  [('sync', 8000), ('rpsync', 6000), ('syncall', 8000)], [r'sync\|', r'sync-form\|'], observe=OBS,
  technique='online happens-before race detector over the replayed barriers, subpass dependencies and accesses of random frame graphs (mock Vulkan device, ASan+UBSan)', note=NOTE_W, needs=['barriers replayed'])

P('P08', 'Disabled passes leave no trace; implicit actions run exactly when needed',
  'A disabled pass records no command and the others behave as if it was absent, its enabled state being asked anew for each run. '
  'When a disabled pass has an implicit action for a view, this action is executed exactly once before the next enabled pass which uses that view, not at all if none does, and leaves the view in its promised state.',
  ['programs', 'histories'], 'All sequences of enabled/disabled combinations over frames, positions of the implicit actions and users of the view.',
  'Tests exercise one fixed combination of enabled passes; the number of combinations over frames is exponential.',
  [RG + 'RunnablePass.cpp', RG + 'RecordContext.cpp', RG + 'RunnableGraph.cpp'],
  [{'name': 'implicit transitions', 'where': RG + 'RecordContext.cpp: registerImplicitTransition, runImplicitTransition'}, {'name': 'enabled check', 'where': RG + 'RunnablePass.cpp: recordInto'}],
  [('rptoggle', 1000), ('toggle', 10000), ('all', 1500), ('again', 2000)], [r'enabled\|', r'implicit\|', r'(layout|data|declared|final|order)\|'], observe=OBS, note=NOTE_W, needs=['implicit actions expected', 'implicit clears checked'])

P('P09', 'A pass works on the resources of its current index',
  'When a pass has several indices, each run uses, for each of its attachments, the view or buffer of the index the pass reports at that time, the same one in barriers, descriptors, framebuffers, transfers and user callbacks. An index is initialised, with the initialisation callback of the pass, before it is first recorded. '
  'Changing the index between frames never mixes the resources or states of two indices.',
  ['programs', 'histories'], 'All sequences of indices over frames, for every kind of pass, with attachments having one or several views or buffers.',
  'Tests record each index once, in order, without checking which resources are touched.',
  [RG + 'RunnablePass.cpp', RG + 'Attachment.cpp', RP + 'RenderPassHolder.cpp', RP + 'PipelineHolder.cpp'],
  [{'name': 'index of the recorded pass', 'where': RG + 'RunnablePass.cpp: recordCurrentInto'}, {'name': 'view/buffer per index', 'where': RG + 'Attachment.cpp: Attachment::view, Attachment::buffer'}],
  [('multi', 12000), ('all', 1500)], [r'index\|', r'(data|rp|transfer|declared|clear|layout|desc|final)\|'], observe=OBS, note=NOTE_W, needs=['markers observed'])

P('P10', 'No Vulkan object is used after its destruction, destroyed twice or leaked',
  'Every device object the library creates is destroyed exactly once, at the latest when the graphs, the handler and the context are destroyed, and never while something still refers to it. '
  'No call or executed command refers to an object which was destroyed, was never created, or is of another type.',
  ['programs', 'histories'], 'All combinations of passes, graphs, toggles and frames; every object type.',
  'Tests stub object creation with dummy handles, so wrong, double or missing destructions are invisible.',
  [RG + 'ResourceHandler.cpp', RG + 'RunnableGraph.cpp', RG + 'RunnablePass.cpp', RG + 'GraphContext.cpp', RP + 'PipelineHolder.cpp', RP + 'RenderPassHolder.cpp', RP + 'RenderQuadHolder.cpp'],
  [{'name': 'resource caches', 'where': RG + 'ResourceHandler.cpp'}, {'name': 'cleanup of the pipelines and render passes', 'where': RP + 'PipelineHolder.cpp, ' + RP + 'RenderPassHolder.cpp'}, {'name': 'deletion queue', 'where': 'include/RenderGraph/GraphContext.hpp'}],
  [('kinds', 3000), ('rp', 2500), ('multi', 2000), ('graphs', 1500), ('reset', 2500), ('all', 1500), ('sepds', 1500), ('again', 2000)], [r'lifetime\|', r'leak\|'], observe=['object table of harness/mock.cpp'], note=NOTE_W, needs=['commands replayed'])

P('P11', 'A device error is reported, and neither corrupts nor leaks anything',
  'When any call to the device fails while a graph is compiled, recorded or run, or while a resource is created, the error reaches the caller as an exception; nothing which was created is leaked or destroyed twice, '
  'and what was not executed is not taken as executed. Once the device works again, the same graph can be run, or the same resource created, and behaves as if the failure had not happened.',
  ['crash_points', 'histories'], 'Every call to the device which may fail (creations, allocations, bindings, recording, submissions), at every point of a history.',
  'Tests never make a call fail at a chosen point: the stubs always succeed, and there are hundreds of points of failure in each history.',
  [RG + 'ResourceHandler.cpp', RG + 'RunnableGraph.cpp', RG + 'RunnablePass.cpp', RG + 'FrameGraph.cpp', RP + 'PipelineHolder.cpp', RP + 'RenderPassHolder.cpp'],
  [{'name': 'creation of resources', 'where': RG + 'ResourceHandler.cpp'}, {'name': 'compilation', 'where': RG + 'RunnableGraph.cpp: constructor'}, {'name': 'submission', 'where': RG + 'RunnableGraph.cpp: run, record'}],
  [('faults', 1200)], [r'fault\|', r'fault-leak\|', r'(leak|lifetime|layout|data|final|inflight|submit|struct)\|'], level='fault_enumeration',
  technique='fault injection at each fallible device call of random frame graph histories, over the instrumented mock device (ASan+UBSan)',
  observe=OBS + ['return code given to each device call'], note=NOTE_W, needs=['failures injected', 'failures injected in runs'])

P('P12', 'Nothing in use by the device is modified, reset, re-recorded or destroyed',
  'While a submission is not known to be complete, the library neither re-records or resets its command buffers, nor updates its descriptor sets, nor destroys any object its commands use, nor resets its fence. '
  'A new run of a graph first waits for the completion of its previous one.',
  ['histories', 'schedules'], 'All sequences of runs, index changes and toggles over frames with the device completing work as late as it is allowed to.',
  'The stubs complete everything at once, so use of in-flight objects cannot be noticed.',
  [RG + 'RunnableGraph.cpp', RG + 'RunnablePass.cpp', 'include/RenderGraph/GraphContext.hpp', RP + 'PipelineHolder.cpp'],
  [{'name': 'fence wait before re-recording', 'where': RG + 'RunnableGraph.cpp: record, run'}, {'name': 'deferred deletion', 'where': 'include/RenderGraph/GraphContext.hpp: delQueue'}],
  [('rptoggle', 1000), ('kinds', 2000), ('rp', 2000), ('multi', 2000), ('toggle', 1500), ('graphs', 2000), ('reset', 4000), ('all', 1200), ('again', 2000)], [r'inflight\|', r'submit\|fence', r'submit\|cmdbuf'], observe=['submissions stay pending in harness/mock.cpp until a fence wait requires their end'], note=NOTE_W, needs=['commands replayed'])

P('P13', 'Cleared attachments get their clear value, and loaded ones keep their content',
  'An attachment declared as an output with a clear is cleared to its own clear value each time its pass runs, for every subresource of its view and every aspect it covers; clearable storage resources are zeroed. '
  'An attachment declared as input is loaded, and never loaded when its content is undefined.',
  ['programs', 'inputs'], 'All numbers and orders of colour, depth and stencil attachments, clear values, layers, indices and frames.',
  'Tests never look at the clear values which reach the device nor at what they are applied to.',
  [RP + 'RenderPassHolder.cpp', RG + 'RunnablePass.cpp', RG + 'Attachment.cpp', RG + 'FramePass.cpp'],
  [{'name': 'clear values', 'where': RP + 'RenderPassHolder.cpp'}, {'name': 'clearable attachments', 'where': RG + 'RunnablePass.cpp: recordInto'}],
  [('rp', 5000), ('core', 3000), ('kinds', 3000), ('multi', 1500), ('sepds', 1500), ('buffers', 1500)], [r'clear\|', r'rp\|load-undefined', r'rp\|clear-count', r'data\|attachment-load'], observe=OBS, note=NOTE_W, needs=['cleared attachments checked', 'clearable attachments checked'])

P('P14', 'Descriptor sets describe exactly what the pass declared',
  'Each time a shader pass runs, its bound descriptor set has one binding per declared shader resource, with the declared binding number and the type matching its use, and holds the view, sampler, buffer, offset and range of the current pass index and the image layout the view is in. '
  'Sets, layouts and pools are consistent: nothing is left unwritten, and pools are never exhausted.',
  ['programs', 'configurations'], 'All combinations of declared sampled, storage, uniform and texel resources, binding numbers, pass indices and frames.',
  'Tests only check that the calls are made, on dummy handles.',
  [RP + 'PipelineHolder.cpp', RG + 'FramePass.cpp', RG + 'Attachment.cpp', 'include/RenderGraph/WriteDescriptorSet.hpp'],
  [{'name': 'descriptor layout, pool and sets', 'where': RP + 'PipelineHolder.cpp'}, {'name': 'descriptor writes', 'where': RG + 'Attachment.cpp: Attachment::getWrite / getBufferWrite'}],
  [('kinds', 6000), ('rp', 3000), ('multi', 3000), ('sync', 1500), ('sepds', 1500), ('reset', 2000)], [r'desc\|', r'desc-layout\|', r'bounds\|view-range'], observe=['descriptor writes and bindings at each draw and dispatch of the replayed commands'], note=NOTE_W, needs=['commands replayed'])

P('P15', 'Render passes, framebuffers and pipelines match the declared attachments',
  'Each render pass instance has exactly the attachments the pass declared, colour attachments in declaration order, with matching formats, a framebuffer of the right views, size and layers for the current index, and the render area of the attachments. '
  'Pipelines are compatible with the render pass they are used in, and everything a draw or dispatch needs is bound before it.',
  ['programs', 'configurations'], 'All combinations of colour, depth, stencil and depth/stencil attachments, formats, mip levels, layers, indices and frames.',
  'Stubs accept any framebuffer and pipeline; compatibility is a relation between many calls which no test compares.',
  [RP + 'RenderPassHolder.cpp', RP + 'PipelineHolder.cpp', RP + 'RenderQuadHolder.cpp', RP + 'RenderMeshHolder.cpp'],
  [{'name': 'render pass and framebuffer creation', 'where': RP + 'RenderPassHolder.cpp'}, {'name': 'pipeline creation', 'where': RP + 'PipelineHolder.cpp, ' + RP + 'RenderQuadHolder.cpp, ' + RP + 'RenderMeshHolder.cpp'}],
  [('rptoggle', 1000), ('rp', 6000), ('kinds', 4000), ('multi', 2500), ('sepds', 2000), ('reset', 2000)], [r'rp\|', r'pipe\|', r'lifetime\|fb-'], observe=OBS + ['render pass, framebuffer and pipeline creation'], note=NOTE_W, needs=['render pass instances checked'])

P('P16', 'Transfers move exactly the declared regions, within bounds',
  'Image copies, blits, buffer copies, copies between buffers and images and mip map generation move the declared source region to the declared destination, for every layer and the mip level of the view, from and to the offsets of the attachments, and leave nothing else changed. '
  'No command or view ever reaches outside of the images and buffers it names.',
  ['programs', 'inputs'], 'All offsets, extents, mip levels, layers, image kinds and buffer ranges, for each of the transfer passes.',
  'Tests run each transfer pass on one full size resource and never look at the regions.',
  [RP + 'ImageCopy.cpp', RP + 'ImageBlit.cpp', RP + 'BufferCopy.cpp', RP + 'BufferToImageCopy.cpp', RP + 'ImageToBufferCopy.cpp', RP + 'GenerateMipmaps.cpp'],
  [{'name': 'copied regions', 'where': RP + '*Copy.cpp, ' + RP + 'ImageBlit.cpp, ' + RP + 'GenerateMipmaps.cpp: doRecordInto'}],
  [('xfer', 14000), ('kinds', 2500), ('multi', 1500)], [r'transfer\|', r'bounds\|'], observe=OBS, note=NOTE_W, needs=['transfer results checked'])

P('P17', 'Draws and dispatches are done with the parameters which were configured',
  'Each time a quad, mesh or compute pass runs, it issues exactly one draw or dispatch per execution: with the vertex, index, instance or group counts given (or returned by the given callbacks at that time), indexed when an index buffer is given, indirect when an indirect buffer is given, from the vertex, index and indirect buffers of its index at their offsets. '
  'Its pipeline has the topology, cull mode, depth and stencil state, blend states, vertex input, viewport and scissor, set layouts and push constant ranges which were configured; a quad covers its render area exactly, with texture coordinates in the wanted directions. The recording callbacks are called where they are meant to be.',
  ['configurations', 'histories'], 'All combinations of the configuration options, constant or computed by callbacks, several indices, and values which change between frames.',
  'Tests configure a few passes and never look at the arguments of the draws, nor at the state of the pipelines.',
  [RP + 'RenderQuad.cpp', RP + 'RenderQuadHolder.cpp', RP + 'RenderMesh.cpp', RP + 'RenderMeshHolder.cpp', RP + 'ComputePass.cpp', RP + 'PipelineHolder.cpp', RG + 'ResourceHandler.cpp', 'include/RenderGraph/RunnablePasses/'],
  [{'name': 'draws', 'where': RP + 'RenderMeshHolder.cpp, ' + RP + 'RenderQuadHolder.cpp: recordInto'}, {'name': 'dispatches', 'where': RP + 'ComputePass.cpp: doRecordInto'}, {'name': 'quad geometry', 'where': RG + 'ResourceHandler.cpp: createQuadTriVertexBuffer'}],
  [('draw', 9000), ('all', 1500), ('kinds', 1000)], [r'draw\|'], observe=['arguments of each replayed draw and dispatch, and the create infos of the bound pipelines'], note=NOTE_W, needs=['draws and dispatches checked', 'pipeline states checked', 'quads checked'])

P('P18', 'Each run is one well formed submission with the right semaphores and fence',
  'Running a graph submits exactly one command buffer, once, waiting for exactly the semaphores given, each with its stages, signalling the semaphore which is returned and a fence which was reset before. '
  'Command buffers are well formed: begun and ended in turn, render passes and labels properly nested, no transfer or barrier recorded where it is not allowed.',
  ['programs', 'histories'], 'All numbers of awaited semaphores (including none and null ones), graphs, frames and pass kinds.',
  'Tests run a graph once or twice with stubs which neither check the state of command buffers, fences or semaphores.',
  [RG + 'RunnableGraph.cpp', RG + 'RunnablePass.cpp'],
  [{'name': 'submission', 'where': RG + 'RunnableGraph.cpp: run'}, {'name': 'command buffer recording', 'where': RG + 'RunnableGraph.cpp: record, ' + RG + 'RunnablePass.cpp: recordInto'}],
  [('core', 3000), ('kinds', 3000), ('graphs', 4000), ('toggle', 2000), ('rp', 2000)], [r'submit\|', r'struct\|'], observe=OBS + ['vkQueueSubmit'], note=NOTE_W, needs=['commands replayed'])

P('P19', 'Signals call each live connection exactly once per emission',
  'Emitting a signal calls, in order of connection, each slot which was connected before the emission and still is, exactly once, and no other. This holds whatever the slots do (connecting, disconnecting themselves or others, emitting again), '
  'for connections which are moved, moved over, disconnected several times or outlive the signal.',
  ['histories'], 'All interleavings of connections, disconnections, moves, destructions and nested emissions.',
  'Tests connect and disconnect one or two slots, never during an emission.',
  ['include/RenderGraph/Signal.hpp'], [{'name': 'signal and connections', 'where': 'include/RenderGraph/Signal.hpp'}],
  [('signal', 12000)], [r'signal\|'], observe=['every call of a slot'], rule='Cases are random sequences of operations over up to 4 signals, some of them done by the slots themselves; a case is non-trivial when it emits with a live connection; two cases are distinct when their sequences of operations and calls differ.',
  technique='runtime monitoring of random operation histories against a reference model (ASan+UBSan)', assumptions=('a signal is used by one thread at a time',),
  note='Exploration: histories up to a few hundred operations.', needs=['emissions', 'live slots checked', 'slot calls checked'])

P('P20', 'Timers report the time which the device and the CPU really spent',
  'The GPU time a timer reports is the time, in nanoseconds, between the two timestamps the device wrote around the last executed run of its pass or graph, and retrieving it never waits for a query nobody wrote, nor reads one which was reset. '
  'The queries of each timer are its own, reset before being written, written once per execution. A CPU time is between 0 and the time which has really passed.',
  ['histories', 'configurations'], 'All sequences of runs, toggles, retrievals and resets, timestamp periods and query ranges.',
  'Tests use stubs which write no timestamps, hence never check a value.',
  [RG + 'FramePassTimer.cpp', 'include/RenderGraph/FramePassTimer.hpp', RG + 'RunnablePass.cpp', RG + 'RunnableGraph.cpp'],
  [{'name': 'timestamps', 'where': RG + 'FramePassTimer.cpp: beginPass, endPass, retrieveGpuTime'}],
  [('timers', 5000), ('all', 1000), ('toggle', 1000)], [r'time\|', r'query\|'], observe=OBS + ['clock of the mock device'], note=NOTE_W, needs=['GPU times checked', 'CPU times checked', 'own timers checked'])

P('P21', 'A resource is created once, from its description, and belongs to one cache',
  'An image or view id stands for one device object: asking for it again through any cache or the handler gives the same handle until it is destroyed, and a new one afterwards. Ids are distinct for distinct images, and two view ids are the same exactly when the views are. Each object is created from exactly the description of its id, images and buffers bound to a memory of a suitable type and size. '
  'Equal sampler descriptions and quad kinds share one object per cache, different ones never do. A cache destroys what it created, when asked or with it, and nothing else; destroying reports whether something was destroyed.',
  ['histories', 'inputs'], 'All sequences of creations and destructions over several contexts and caches, image and view descriptions, sampler descriptions, and memory types of the device.',
  'Tests create a few resources once through stubs; they neither compare handles nor create infos, nor destroy and recreate in unusual orders.',
  [RG + 'ResourceHandler.cpp', 'include/RenderGraph/ImageData.hpp', 'include/RenderGraph/ImageViewData.hpp', RG + 'GraphContext.cpp'],
  [{'name': 'caches', 'where': RG + 'ResourceHandler.cpp'}, {'name': 'memory type', 'where': RG + 'GraphContext.cpp: deduceMemoryType'}],
  [('cache', 40000)], [r'cache\|', r'lifetime\|', r'leak\|', r'bounds\|memory', r'exception\|'], observe=['every creation and destruction call, compared to the reference model after each operation'],
  rule='Cases are random histories of 20 to 120 operations over 1 to 3 contexts, their caches (separate or grouped) and the handler; two cases are distinct when their sequences of operations differ.',
  technique='runtime monitoring of random operation histories against a reference model, over an instrumented mock Vulkan device (ASan+UBSan)', assumptions=(A_MOCK, 'a handler serves contexts of one device', 'views are destroyed before their image'),
  note='Exploration: the verdict is about the histories observed.', needs=['images checked', 'views checked', 'samplers checked', 'quads checked', 'destructions checked', 'view ids checked', 'memory bindings checked'])

P('P22', 'States are tracked per subresource, and manual barriers and copies follow them',
  'The layout and access of a view read back from a record context, a graph input or output, or a list of changes are the ones last set for its subresources: never those of another mip level, layer or image; what was never set is undefined. Adding states only fills what is unknown, and changes are exactly what differs. '
  'A barrier asked to a record context goes from the tracked (or told) state of each subresource to the wanted one, is left out only when the same reads go on in the same layout, and the tracked layout is afterwards the real one. The copy, blit and clear actions a disabled pass may use process every layer of their views and leave the states they announce.',
  ['histories', 'inputs'], 'All sequences of settings, queries, barriers, merges and actions over views of any mip levels and layers, 2D and 3D, colour and depth stencil.',
  'Tests set and read a few states; barriers and actions run on stubs which neither keep layouts nor look at regions.',
  [RG + 'RecordContext.cpp', RG + 'LayerLayoutStatesHandler.cpp', RG + 'FrameGraph.cpp'],
  [{'name': 'state store', 'where': RG + 'LayerLayoutStatesHandler.cpp, ' + RG + 'FrameGraph.cpp: addSubresourceRangeLayout, getSubresourceRangeLayout, getVirtualRange, listSubresources'}, {'name': 'manual barriers', 'where': RG + 'RecordContext.cpp: memoryBarrier'}, {'name': 'implicit actions', 'where': RG + 'RecordContext.cpp: copyImage, blitImage, clearAttachment'}],
  [('store', 30000)], [r'store\|', r'action\|', r'layout\|', r'bounds\|', r'exception\|'], observe=['answers of every query', 'commands recorded by each barrier and action, replayed by harness/mock.cpp'],
  rule='Cases are random histories of 20 to 80 operations over up to 5 record contexts, 1 to 4 images, 3 buffers and a graph; two cases are distinct when their sequences of operations differ.',
  technique='runtime monitoring of random operation histories against a reference model, over an instrumented mock Vulkan device (ASan+UBSan)', assumptions=(A_MOCK, A_SCOPE),
  note='Exploration: the verdict is about the histories observed.', needs=['state queries checked', 'barrier decisions checked', 'implicit actions checked', 'real layouts checked'])

NODES = ('Cases are random declarations: 1 to 3 graphs of up to some tens of passes in nested groups, with image and buffer attachments of every kind over any mip levels, layers and ranges, '
         'merged views, graph inputs and outputs, compiled once or twice; two cases are distinct when their declarations differ.')
T_NODES = 'runtime monitoring of random graph declarations against a reference model computed from the declarations alone, over a mock Vulkan device (ASan+UBSan)'
A_NODES = ('the reference model of the harness (harness/mon_nodes.cpp) reads the declarations correctly',)

P('P23', 'A merged view stands for exactly the views it was merged from',
  'The view which results from merging views of an image covers the smallest range of mip levels (when merging them is asked) and of layers (likewise) which contains all of them, in the format and aspects of its sources, with a type which suits its layer count, and remembers its sources. '
  'Passes which use a merged view and passes which use its parts see the same subresources: dependencies, layouts, contents and transitions relate them exactly as if each part was named alone.',
  ['programs', 'inputs'], 'All sets of views of an image, 2D or 3D, mip levels and layers, merged or not in each direction, and all the passes which use the merged view or its parts.',
  'Tests merge two views in one pass, and look at neither the range obtained nor what other passes make of it.',
  [RG + 'FramePass.cpp', RG + 'FrameGraph.cpp', RG + 'Attachment.cpp', RG + 'ResourceHandler.cpp'],
  [{'name': 'merging', 'where': RG + 'FrameGraph.cpp: mergeViews'}, {'name': 'splitting', 'where': RG + 'GraphBuilder.cpp, ' + RG + 'FrameGraph.cpp: resolveView'}],
  [('nodes', 4000), ('merged', 9000)], [r'merge\|', r'(layout|declared|data|clear|final|flow)\|'], observe=['image view created from each merged view'] + OBS, note=NOTE_W, rule=NODES + ' Then worlds whose passes use merged views.',
  needs=['merged views checked', 'merged view sources checked', 'declared layouts checked'], assumptions=A_NODES + (A_MOCK, A_GPU, A_SCOPE))

P('P24', 'The transitions and the graph of the passes are those of the declared uses',
  'The transitions a compiled graph reports are exactly: one for each view or buffer which a pass reads and a pass it depends on (directly, or through passes which do not use it) writes, as such or as a view of which one mip level is read; one from the outside for each one which is read and no pass writes; and one to the outside for each one which is written and no pass reads. Merged views count as their parts. '
  'The nodes are the passes, the edges link exactly the passes which have such transitions in common, and carry them; the root precedes the passes which wait for no other one. None of this depends on the values of handles nor on the order of the declarations.',
  ['programs', 'inputs'], 'All sets of passes, image and buffer attachments, ranges which overlap partly, and dependencies.',
  'Tests never look at the transitions: they only check that compiling does not throw.',
  [RG + 'GraphBuilder.cpp', RG + 'FramePassDependenciesBuilder.cpp', RG + 'GraphNode.cpp', RG + 'FrameGraph.cpp', RG + 'AttachmentTransition.cpp'],
  [{'name': 'dependencies between attachments', 'where': RG + 'FramePassDependenciesBuilder.cpp'}, {'name': 'nodes and edges', 'where': RG + 'GraphBuilder.cpp, ' + RG + 'GraphNode.cpp'}],
  [('nodes', 9000)], [r'flow\|'], observe=['RunnableGraph::getTransitions, getGraph, GraphNode::getNext, getTransitions'], note='Exploration: the verdict is about the declarations observed.', rule=NODES, technique=T_NODES, assumptions=A_NODES,
  needs=['view transitions checked', 'buffer transitions checked', 'edges checked', 'root edges checked'])

P('P25', 'The dot exports describe the passes and transitions of the graph',
  'Each export of a graph to the dot language is well formed, and describes exactly the transitions of the graph and the passes which have some: each transition gives its edges, once, from the pass which writes (or the outside) to the transition, and from it to the pass which reads (or the outside). '
  'The options only add or remove what they are about: colours, identifiers, groups, one graph per group. With groups, each pass is displayed within its own groups, and, in a single graph, each transition in the innermost group which holds both its passes. Exports to one stream and to several agree.',
  ['programs', 'configurations'], 'All graphs, options, outputs (one stream, one stream per group) and nested groups.',
  'Tests write the exports to a stream and never read it.',
  [RG + 'DotExport.cpp', 'include/RenderGraph/DotExport.hpp'], [{'name': 'passes and transitions', 'where': RG + 'DotExport.cpp: displayPasses, displayTransitions'}],
  [('nodes', 9000)], [r'dot\|'], observe=['the text of each export, parsed'], note='Exploration: the verdict is about the declarations observed.', rule=NODES, technique=T_NODES, assumptions=A_NODES, needs=['dot exports checked', 'dot edges checked'])

P('P30', 'Declarations are kept as they were given, and unusable graphs are refused',
  'A pass keeps the group, name, unique id and attachments it was given, each one with its kind, views or buffers per index, ranges, binding, operations, blend state and clear value, found in the order of their declaration (depth and stencil ones first). '
  'A pass or group name used twice in a group is refused, asking for a group again gives the same one, and compiling an empty graph, or one whose passes depend on each other in a cycle which the graph can not sort, is refused with an exception, leaving the declarations usable.',
  ['inputs', 'programs'], 'All declarations: nested groups, kinds of attachments, counts of views, ranges and dependencies.',
  'Tests declare each kind of attachment once, and check a few of their fields.',
  [RG + 'FramePass.cpp', RG + 'FramePassGroup.cpp', RG + 'Attachment.cpp', RG + 'FrameGraph.cpp'],
  [{'name': 'declarations', 'where': RG + 'FramePass.cpp: add*'}, {'name': 'groups', 'where': RG + 'FramePassGroup.cpp'}],
  [('nodes', 6000), ('tables', 6000)], [r'decl\|'], observe=['the public members and accessors of passes, groups and attachments'], note='Exploration: the verdict is about the declarations observed.', rule=NODES, technique=T_NODES, assumptions=A_NODES,
  needs=['groups checked', 'passes checked', 'cycles refused', 'duplicates refused', 'empty graphs refused', 'attachment descriptions checked'])

P('P28', 'Formats, layouts, ranges and uses have the properties Vulkan gives them',
  'Each format has exactly the aspects it has in Vulkan. Each use of an attachment has the layout, accesses, pipeline stages and descriptor type of that use, for graphics and compute passes, with and without separate depth and stencil layouts; each layout and set of stages has accesses its stages can perform. '
  'The extent of a mip level is never null, the slices of a 3D view are those of its level, the subresources listed for a range are a partition of it, and two views match exactly when they cover the same subresources in the same format.',
  ['inputs'], 'All formats, layouts, stages, kinds of attachments, and views of images of any size, mip levels and layers.',
  'Tests compare a part of each table to the values which were in the code.',
  [RG + 'FrameGraph.cpp', RG + 'Attachment.cpp', 'include/RenderGraph/Attachment.hpp'],
  [{'name': 'tables', 'where': RG + 'FrameGraph.cpp: getAccessMask, getStageMask, getPipelineState, getAspectMask, getVirtualRange, listSubresources, match, getMipExtent'}, {'name': 'uses', 'where': RG + 'Attachment.cpp: getImageLayout, getAccessMask, getPipelineStageFlags, getDescriptorType'}],
  [('tables', 10000)], [r'table\|'], observe=['the values returned by the public functions'],
  rule='Each case goes through all core formats, the layouts and stages, 24 random views, and a pass with up to 24 attachments of random kinds; two cases are distinct when their attachments differ.',
  technique='runtime monitoring of the public functions on random inputs against independent tables written from the Vulkan specification (ASan+UBSan)', assumptions=('the tables of harness/mon_tables.cpp follow the Vulkan specification',),
  note='Formats are covered exhaustively; views and attachments are sampled.', needs=['formats checked', 'layouts checked', 'stages checked', 'ranges checked', 'attachment descriptions checked'])

P('P29', 'Shader passes run the program last given to them, also after a reset',
  'Each time a quad, mesh or compute pass runs, the bound pipeline was created from the shader modules of the program which is current for its pass index: the one given at creation, by the list or the program creator, or the last one given to resetPipeline. '
  'Resetting a pipeline is possible at any time between two runs, before the first one included, for passes which are disabled too, whatever index is active; the replaced program may be destroyed afterwards, and nothing else of the pass changes.',
  ['histories', 'programs'], 'All sequences of resets, runs, toggles and index changes, for single programs, programs per index and program creators, quad, mesh and compute passes.',
  'Tests reset one pipeline once, on stubs which do not relate pipelines, programs and draws.',
  [RP + 'PipelineHolder.cpp', RP + 'RenderQuad.cpp', RP + 'RenderQuadHolder.cpp', RP + 'RenderMesh.cpp', RP + 'RenderMeshHolder.cpp', RP + 'ComputePass.cpp', RG + 'RunnablePass.cpp'],
  [{'name': 'pipeline reset', 'where': RP + 'PipelineHolder.cpp: resetPipeline, getProgram'}, {'name': 're-creation', 'where': RP + 'RenderQuadHolder.cpp, ' + RP + 'RenderMeshHolder.cpp, ' + RP + 'ComputePass.cpp: resetPipeline'}],
  [('reset', 12000), ('all', 1500)], [r'program\|', r'pipe\|', r'(lifetime|inflight|desc|leak)\|'], observe=['pipeline bound at each draw and dispatch, with the shader modules it was created from'], note=NOTE_W, needs=['bound programs checked', 'pipelines reset'])

P('P26', 'The same program always produces the same device calls',
  'Building, compiling and running the same graphs with the same choices of the application produces the same sequence of device calls and commands, with the same arguments: it depends neither on the addresses the objects of the library or of the device happen to have, nor on the values of the device handles, nor on what else was created before in the same resource handler.',
  ['programs', 'histories', 'configurations'], 'All worlds of graphs and histories, replayed with other heap addresses, other handle values and orders, and other contents of the resource handler.',
  'A test runs once per process and compares nothing between two runs; an order taken from addresses only changes when the addresses do.',
  [RG + 'FrameGraph.cpp', RG + 'RunnableGraph.cpp', RG + 'FramePassDependenciesBuilder.cpp', RG + 'RecordContext.cpp', RG + 'LayerLayoutStatesHandler.cpp', RG + 'ResourceHandler.cpp', RP],
  [{'name': 'states kept by identifier', 'where': RG + 'LayerLayoutStatesHandler.cpp, ' + RG + 'RecordContext.cpp'}, {'name': 'order of the passes and of their transitions', 'where': RG + 'FrameGraph.cpp, ' + RG + 'FramePassDependenciesBuilder.cpp'}],
  [('repeat', 12000)], [r'repeat\|'], observe=['the whole sequence of device calls, handles being replaced by the rank of their object'],
  rule='Each case is a random world of a random profile, run twice: the second time with other heap addresses, decreasing or shifted handle values, or a resource handler which has been used before. Two cases are distinct when their sequences of device calls differ.',
  technique='runtime monitoring: differential comparison of the complete device call streams of two runs of a same random world under perturbed addresses, handles and handler contents',
  note=NOTE_W, builds=('plain',), needs=['device calls compared', 'worlds run again'])

P('P27', 'Threads with graphs of their own may share handlers and contexts',
  'Distinct threads which build, compile, run and destroy frame graphs of their own at the same time, sharing a resource handler, and create and destroy resources in shared handlers and contexts, never race, deadlock or disturb each other: each thread makes the same device calls as when it is alone, each resource is created and destroyed once, and identifiers stay unique.',
  ['schedules', 'histories'], 'All interleavings of such threads, sampled with random delays inside of the device calls.',
  'The tests are single threaded.',
  [RG + 'ResourceHandler.cpp', RG + 'GraphContext.cpp', 'include/RenderGraph/ResourceHandler.hpp', RG + 'Log.cpp', RG + 'DotExport.cpp'],
  [{'name': 'handler locks', 'where': RG + 'ResourceHandler.cpp: m_imagesMutex, m_viewsMutex, m_samplersMutex, m_buffersMutex'}, {'name': 'list of allocated objects', 'where': RG + 'GraphContext.cpp: doRegisterObject, doUnregisterObject'}],
  [('threads', 2500)], [r'threads\|'], observe=['ThreadSanitizer reports', 'device calls of each thread', 'objects returned by the shared handler to each thread'],
  rule='Each case starts 2 to 5 threads: with random worlds sharing a handler, or random operations on the resources of one handler and context, or the other thread safe functions. Two cases are distinct when the interleavings of the logged operations or the worlds differ.',
  technique='runtime monitoring: ThreadSanitizer on random concurrent workloads with injected delays, offline check of the recorded operation logs (exactly once creation, uniqueness, conservation) and comparison of each thread with its solo run',
  note='Exploration of sampled interleavings: races are detected by happens-before, so that a race is reported without needing the harmful interleaving itself. Emitting and connecting a same signal, and replacing the log callbacks, are not covered.',
  builds=('tsan',), jobs=4, needs=['operations', 'device calls logged', 'device calls compared'])

P('P31', 'Debug names, labels, logs and leak reports tell the truth',
  'Each object which the library creates is given a debug name. Every debug name given to the device designates an object which exists, with its real type, and the images and views carry the names of their descriptions. The commands of a pass are recorded inside a debug label which names it. The log tells the creation and the destruction of each listed object, once, while it exists; messages reach the callback of their level, unchanged, and an error is logged for each failed device call and for nothing else. '
  'When a context or a handler is destroyed, it reports as leaked exactly the objects it lists which still exist: none after everything was destroyed, even after failed device calls.',
  ['histories', 'fault sequences'], 'All histories of creations, runs, resets, failures and destructions, with the debug functions of the device present or not.',
  'The tests have no device to tell whether a named object exists, and look at no report.',
  [RG + 'GraphContext.cpp', 'include/RenderGraph/GraphContext.hpp', RG + 'ResourceHandler.cpp', RG + 'RunnableGraph.cpp', RG + 'RunnablePass.cpp', RP + 'PipelineHolder.cpp', RP + 'RenderPassHolder.cpp', RG + 'Log.cpp'],
  [{'name': 'list of allocated objects', 'where': RG + 'GraphContext.cpp: doRegisterObject, doUnregisterObject, ~GraphContext'}, {'name': 'leak report of the handler', 'where': RG + 'ResourceHandler.cpp: ~ResourceHandler'}, {'name': 'debug labels', 'where': RG + 'RunnablePass.cpp: recordInto'}],
  [('debug', 10000), ('all', 1500), ('reset', 1200), ('again', 1200), ('faults', 800)], [r'debug\|'], observe=['debug names and labels given to the device', 'messages of the log', 'standard error during the destruction of the contexts'],
  rule=WORLD + ' The cases of the "debug" monitor are random histories of registrations, labels, resources and messages; they are distinct when their operations differ.',
  note=NOTE_W, needs=['names checked', 'labels checked', 'context leak reports checked', 'handler leak reports checked', 'leaks reported', 'messages checked', 'debug labels checked', 'debug names and logs checked'])

P('P32', 'Every call made to the device follows the rules Vulkan sets to the caller',
  'Whatever the graph, its resources and its configuration, as long as these are valid themselves, each structure the library hands to the device is complete and valid by itself: structure types, flags, enumerations and counts are legal, arrays which are counted exist, objects which are named exist and have the usage, the format, the shape and the aspects the call needs. '
  'Pipelines are complete (line width, sample counts, viewport, vertex input); images, views, samplers, memory bindings, render passes, framebuffers, descriptors, query pools, command buffers, barriers and recorded commands follow the limits, alignments and combinations the specification allows, without needing a feature or an extension nobody enabled.',
  ['programs', 'inputs'], 'All graphs of passes of every kind, formats, ranges, pipeline configurations, draw and dispatch parameters, histories of runs.',
  'The tests run over a driver which accepts anything.',
  [RG + 'ResourceHandler.cpp', RG + 'RunnableGraph.cpp', RG + 'RunnablePass.cpp', RG + 'RecordContext.cpp', RG + 'GraphContext.cpp', RP + 'RenderPassHolder.cpp', RP + 'PipelineHolder.cpp', RP + 'RenderQuadHolder.cpp', RP + 'RenderMeshHolder.cpp', RP + 'ComputePass.cpp', RP + 'ImageCopy.cpp', RP + 'ImageBlit.cpp', RP + 'GenerateMipmaps.cpp', RP + 'BufferToImageCopy.cpp', RP + 'ImageToBufferCopy.cpp', RP + 'BufferCopy.cpp'],
  [{'name': 'graphics pipelines', 'where': RP + 'RenderQuadHolder.cpp, ' + RP + 'RenderMeshHolder.cpp: constructor, doCreatePipeline'}, {'name': 'render passes and framebuffers', 'where': RP + 'RenderPassHolder.cpp'}, {'name': 'resources', 'where': RG + 'ResourceHandler.cpp: createImage, createImageView, createSampler, createVertexBuffer'}, {'name': 'barriers', 'where': RG + 'RecordContext.cpp: memoryBarrier'}],
  [('kinds', 4000), ('rp', 4000), ('draw', 4000), ('xfer', 3000), ('multi', 1500), ('sepds', 2000), ('sync', 1500), ('buffers', 1500), ('timers', 1000), ('toggle', 1000), ('reset', 1000), ('again', 1000), ('all', 1500), ('cache', 3000), ('store', 1500)],
  [r'(valid|struct|bounds|desc|desc-layout|pipe|query|rp|sync-form)\|'], observe=['arguments of every device call (harness/valid.cpp)', 'commands of each command buffer whose recording ends'],
  technique='online validation monitor over every device call of random frame graphs (mock Vulkan device, ASan+UBSan)',
  rule=WORLD + ' The "cache" and "store" cases are random uses of the resource caches and of the record context.', note=NOTE_W, needs=['rules of device calls checked', 'render pass instances checked', 'draws and dispatches checked'])

P('P33', 'A graph run again and again takes no more resources, memory or work',
  'A graph which is run again and again in circumstances which repeat settles: from then on each repetition makes the same device calls, and neither the number of live device objects nor the memory the library holds grows, however many frames are run. '
  'When all the frames are alike, none of them makes a new device object (but for the programs the user replaces, whose old pipelines go as the graph runs).',
  ['schedules', 'histories'], 'All graphs and histories of frames: passes switched on and off, pass indices, programs replaced, layouts, several graphs, timers; periods of 1 to 3 frames.',
  'The tests run a graph once or twice and never look at what it holds afterwards.',
  [RG + 'RunnableGraph.cpp', RG + 'RunnablePass.cpp', RG + 'RecordContext.cpp', RG + 'GraphContext.cpp', RP + 'RenderPassHolder.cpp', RP + 'PipelineHolder.cpp'],
  [{'name': 'objects waiting to be destroyed', 'where': RG + 'RunnableGraph.cpp: run (delQueue.clear)'}, {'name': 'reuse of render passes', 'where': RP + 'RenderPassHolder.cpp: initialise'}, {'name': 'states of the runs', 'where': RG + 'RunnableGraph.cpp: doRecord; ' + RG + 'FrameGraph.cpp: registerFinalState'}],
  [('steady', 2000)],
  [r'steady\|'], observe=['device calls, live objects and heap blocks of the library after each period'],
  technique='steady-state monitor over repeated frames of random graphs (device call log, object table, ASan allocation hooks)',
  rule='Each case draws a random graph and a period of 1 to 3 frames, and runs the period 7 to 10 times with the same choices: the last period is compared with those before it, and where something still changes the case is run again with 100 periods, of which the last half must not change.', note=NOTE_W, needs=['repeated frames', 'device calls of repeated frames compared', 'repeated frames which make nothing', 'heaps compared'])
