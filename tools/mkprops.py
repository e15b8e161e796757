# writes properties.jsonl
import json, os
T='src/INNC/tensorImpl.cpp'; F='src/INNC/function.cpp'; O='include/INNC/ops.hpp'; U='include/INNC/utils/utils.hpp'
UC='src/INNC/utils/utils.cpp'; D='include/INNC/dispatcher.hpp'; L='src/INNC/layouts.cpp'; TC='src/INNC/tensor.cpp'; TY='src/INNC/types.cpp'
TH='include/INNC/tensor.hpp'; ST='src/INNC/storage.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p('C01','backward() computes the exact gradient of every expression graph',
  'Whatever graph of operations leads from leaf tensors to a one-element result, backward() on that result adds to the gradient of every leaf that requires grad the derivative of the result with respect to each element of that leaf, summed over all paths. This holds for any mix of +, -, *, /, negation, abs, sum, mean, max, min, type, clone, contiguous, cat, slices, transpose and reshape, with operands broadcast, shared, used several times or used together with tensors that do not require grad.',
  ['programs','inputs'],'every DAG of differentiable operations, every shape, layout and value',
  'The tests evaluate about ten fixed graphs with fixed numbers; the claim is about every DAG shape (fan-out, diamonds, repeated operands), every operand layout and every broadcast.',
  [F,T,O],[('refresh_n_outway / ready counting of the backward engine',F),('the step_back rule of each Backward node',F),('accumulation of incoming gradients','Backward::back, '+F)],
  ['Tensor::backward','Tensor::grad'],[('input_tfs','operands kept for the backward rule',F),('_n_outway','consumers not yet processed',T)])
p('C02','Gradients accumulate, persist, reset and are retained exactly as requested',
  'The gradient of a leaf is the sum of the contributions of all backward passes since it was created or last reset by zero_grad(), and nothing but backward() and zero_grad() changes it. A result computed from other tensors keeps the gradient of a pass if and only if its retain_grad is set, a gradient always has the shape and type of its tensor, and a tensor no pass has reached has none. This holds for any number of passes over newly built graphs and any interleaving with other calls.',
  ['histories','programs'],'every interleaving of graph construction, backward, zero_grad, retain_grad, requires_grad and handle lifetime',
  'The tests run one or two passes over a graph; the property is about arbitrary histories of passes, resets and flag changes.',
  [F,T,TC],[('accumulate into grad of leaves, clear grad of results',F),('zero_grad, retain_grad',T)],['Tensor::grad','Tensor::zero_grad','Tensor::retain_grad'],
  [('grad','accumulated gradient',T),('retain_grad','keep flag',T)])
p('C03','requires_grad propagates through operations and is never switched on wrongly',
  'A result of a differentiable operation requires grad exactly when at least one operand did when it was computed; comparisons, detach(), fresh constructors and gradients never require grad. Only floating-point tensors can require grad: requesting it on an integer tensor, or converting a tensor that requires grad to an integer type, throws. Setting requires_grad(false) on a leaf excludes it from later passes, without affecting the gradients of others.',
  ['programs','histories'],'every operation, operand combination and moment of changing the flag',
  'The tests look at the flag in a few places only and never at operations with several operands of which one requires grad.',
  [T,TC,F],[('requires_grad checks',T),('construction of grad_fn per operation',T)],['Tensor::requires_grad','Tensor::backward','Tensor::type'])
p('C04','Invalid calls throw, change nothing and never crash',
  'Every call with arguments the library does not define (shapes that do not broadcast, index or dimension out of range, slice text that is malformed or has step 0, reshape to another number of elements or with two or negative open sizes, cat of no tensors or of shapes that do not fit, in-place addition to a tensor that requires grad, integer division by zero, backward() on a leaf, on several elements or on a tensor that does not require grad, randn of an integer type, ragged literals, shapes with more elements than memory can address) throws an exception, whatever the other arguments, including empty tensors. A call that throws leaves every existing tensor, gradient and flag as it was and all tensors remain usable. Calls with valid arguments are not rejected.',
  ['inputs','histories'],'every invalid argument combination at every point of a history, including tensors without elements',
  'Tests contain a handful of EXPECT_THROW with one wrong argument each and never look at the state afterwards.',
  [T,U,UC,L,TC],[('argument checks',T),('broadcast_range',U),('slice parsing',UC)],['all public calls'])
p('C05','Slicing agrees with Python for every slice text',
  'tensor["a:b:c, i, ..."], a text of comma-separated parts each of which is an integer or begin:end:step, selects exactly the elements, in the order and with the result shape, that Python/NumPy basic slicing of the same text selects: omitted and negative bounds, bounds beyond the ends, negative steps, indices that remove a dimension, fewer parts than dimensions, spaces, an empty part (which stands for the whole dimension), and slices of slices or of transposed or reshaped tensors included. Indices out of range and more parts than dimensions are rejected.',
  ['inputs'],'every slice text, on every shape and layout','The tests try about a dozen slices of one shape.',
  [UC,T,L],[('slice parser',UC),('slice to stride/offset',T)],['Tensor::operator[]'])
p('C06','Views share memory with their origin and copies do not',
  'Slices, transposes, detach() and the reshape of a contiguous tensor see every later in-place change of the tensor they were taken from and vice versa, element for element, through any chain of views and even after the origin is gone. clone(), type() to another type, from_blob, cat and all arithmetic give tensors that are independent of their operands. No other element of any tensor changes.',
  ['programs','histories'],'every chain of views and copies and every later in-place addition through any member',
  'The tests check single views; chains, writes through a view of a view and independence of copies need an aliasing model.',
  [T,L,ST],[('shared storage with view layout',T),('clone',T)],['Tensor::operator+=','Tensor::to_string'],[('storage','shared data',ST),('view','strides and offset',L)])
p('C07','transpose, reshape, contiguous and clone keep elements and order',
  'transpose(i, j) exchanges exactly the two dimensions; reshape keeps the row-major sequence of elements and resolves one -1; contiguous(), clone(), detach() and reshape_as keep shape and elements as specified, contiguous() and clone() giving a contiguous tensor. This holds for every shape, including dimensions of extent 0 and 1 and scalars, and for operands that are themselves views in any layout.',
  ['inputs','programs'],'every shape, rank and layout','Tests use a few two- and three-dimensional shapes, mostly of contiguous tensors.',
  [T,L],[('stride computation',L),('reshape',T)],['Tensor::transpose','Tensor::reshape','Tensor::contiguous','Tensor::clone'])
p('C08','Element-wise arithmetic follows broadcasting for all shapes and layouts',
  'x + y, x - y, x * y, x / y and -x give, at each index of the broadcast shape, the result of the operation on the operands\' elements at that index, for every pair of shapes that broadcast (any ranks, extents 1 and 0, where 0 agrees only with 0, scalars) and any layout of the operands, whether or not gradients are recorded. Integer division truncates toward zero, division of floats follows IEEE (infinities and NaN for zero divisors), and narrow integers wrap.',
  ['inputs'],'every pair of broadcastable shapes, types, layouts and values','Tests use a handful of shape pairs, mostly equal.',
  [T,O,U,D],[('broadcast_range',U),('kernels',O)],['operator+','operator-','operator*','operator/'])
p('C09','Result types and conversions follow one promotion rule',
  'The type of an arithmetic result is the larger of the operand types in the order i8 < i16 < i32 < i64 < f32 < f64 and the values are computed in it; negation and abs, max and min keep the type, comparisons give i8, sum and mean give i64 for integers and f64 for floats, cat the largest of its operands. type(t) converts every element like a C++ conversion (truncation toward zero, wrap of narrow integers, rounding to f32), from any layout; += keeps the type of its left side.',
  ['inputs','configurations'],'all 36 type pairs, all operations and values that tell the types apart','The tests touch a few type pairs, with values that are the same in every type.',
  [TY,D,O,T],[('common_type / dispatcher',D),('type()',T)],['Tensor::type'])
p('C10','Comparisons and all() are element-wise exact',
  '<, >, <=, >=, == and != return an i8 tensor of the broadcast shape holding 1 exactly where the relation holds between the elements compared in their common type and 0 elsewhere (NaN compares unequal to everything); all() is true exactly when no element of the tensor, in its own layout, is zero.',
  ['inputs'],'all type pairs, shapes, layouts and values including NaN, extremes and fractions','Tests compare small equal-typed contiguous tensors.',
  [T,O,D],[('comparison kernels',O),('all',T)],['operator<','Tensor::all'])
p('C11','Reductions and abs are right for every tensor',
  'sum() and mean() are the total and the average of all elements, computed in i64 for integer tensors (the mean truncated toward zero) and in f64 for floats; max() and min() give the largest and smallest element and abs() the absolute values with the shape kept. This holds for every type, shape and layout (offsets, negative steps, transposes, one element) and any position of the extremum.',
  ['inputs'],'every type, shape, layout and position of the extremum','Tests reduce a few contiguous tensors.',
  [T,O,F],[('reduction kernels',O)],['Tensor::sum','Tensor::mean','Tensor::max','Tensor::min','Tensor::abs'])
p('C12','cat joins any tensors along any dimension',
  'cat({t1, ..., tn}, d) has the extents of its operands, added up along dimension d, contains each operand\'s elements at its offset converted to the largest operand type, and routes each part of the gradient back to its operand, for any number of operands, repeated operands, any rank, dimension, extents (including 0) and operand layouts. Operands whose other extents or ranks differ are rejected.',
  ['inputs','programs'],'every list of operands and dimension','Tests concatenate two or three fresh tensors.',
  [T,O,F],[('cat',T),('CatBack',F)],['Tensor::cat'])
p('C13','Constructors and literals produce exactly the described tensor',
  'zeros, ones, full, eye, zeros_like, ones_like, from_blob, scalar constructors and nested literals give a contiguous tensor of exactly the requested shape and type with exactly the described elements (converted like a C++ conversion), independent of the source buffer or model tensor, and without gradient; randn gives finite floats, normally distributed with mean 0 and deviation 1, of the requested floating type.',
  ['inputs'],'every shape (any rank, extents 0 and 1), type and value; any layout of the model tensor','Tests print a few constructed tensors.',
  [T,TC,TH],[('constructors',T),('TensorInit',TH)],['Tensor::zeros','Tensor::full','Tensor::eye','Tensor::from_blob','TensorInit'])
p('C14','No operation depends on the memory layout of its operands',
  'Replacing an operand by another tensor with the same shape, type and elements but another layout (a slice with offset or step, a reversed or transposed view, a reshape) changes neither the values of any result nor the gradients that reach the elements.',
  ['inputs','programs'],'every operation on every layout of an operand','Tests call most operations on contiguous tensors only.',
  [T,O,U,F,L],[('strided iteration',U)],['all operations'])
p('C15','Memory is safe and released for every history',
  'No sequence of public calls on tensors that hold data, whatever the order in which handles are assigned, overwritten or dropped, reads or writes outside a live buffer. Data stays valid as long as a handle, view or recorded graph needs it, and after the last handle is gone everything allocated for it has been released, including graphs on which backward() was or was not called, that were retained, or whose calls threw, and graphs of any depth.',
  ['histories','programs'],'every order of creation, use and release; loops of any length','The tests never drop an operand before its result, count allocations or run under a checker with view chains.',
  [ST,T,F,TC],[('shared ownership of storage, graph nodes',T),('ownership of operands by graph nodes',F)],['all public calls'])
p('C16','Integer results are exact over the whole range of the type',
  'i32 and i64 arithmetic, comparison, conversion, sum, mean, max, min, abs, cat, in-place addition and printing are exact for all values for which the mathematical result fits the type: no intermediate value passes through a narrower integer or a floating type.',
  ['inputs'],'all values of i32 and i64, up to the extremes','All test values are below 2^16, where a detour over int or double is invisible.',
  [O,T,D,TY],[('kernels compute in the common type',O),('full/from_blob',T)],['operators','Tensor::sum','Tensor::to_string'])
p('C17','In-place addition updates exactly the target elements',
  'x += y adds to each element of x the element of y at the broadcast index, computed in the common type and stored in the type of x, at the memory of x and nowhere else, for any layout of x and y, any type pair and any y that broadcasts to the shape of x. x keeps its shape, type, flags and identity; it throws without any change if x requires grad or the shapes do not broadcast.',
  ['inputs','histories'],'every pair of layouts, shapes and types','Tests do += on two contiguous tensors of one shape.',
  [T,O,U],[('operator+=',T),('inplace kernel',O)],['Tensor::operator+='])
p('C18','backward() has no effect but on gradients, and graphs are isolated',
  'backward() changes no value, shape, type, layout or flag of any tensor and no gradient of a tensor that does not lie on a path to the result; the result of a pass does not depend on other graphs, on tensors computed from the same leaves but not leading to the result, or on handles that were dropped or reassigned after the graph was built.',
  ['histories','programs'],'every set of coexisting graphs over shared leaves and every order of passes and handle changes','Tests have one graph at a time and keep all handles alive.',
  [F,T],[('refresh_n_outway restricted to the reachable graph',F)],['Tensor::backward','Tensor::grad'])
p('C19','Shape, size, stride, contiguity and printing describe the tensor',
  'size(), numel(), dim(), stride(), is_contiguous(), type() and to_string() are consistent with the elements: numel is the product of the extents, walking the strides visits the elements in index order, is_contiguous() tells whether this walk is row-major without gaps, and to_string() prints all elements in index order, nested in brackets by dimension, integers in full and floats with six decimals. These queries change nothing.',
  ['inputs','histories'],'every tensor reachable by any chain of operations','Tests print a few small tensors; stride() threw for every tensor before this work.',
  [L,T,TC],[('layout queries',L),('to_string',T)],['Tensor::size','Tensor::stride','Tensor::to_string'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
