import json
T='src/INNC/tensorImpl.cpp';F='src/INNC/function.cpp';O='include/INNC/ops.hpp';U='src/INNC/utils/utils.cpp';UH='include/INNC/utils/utils.hpp';TN='src/INNC/tensor.cpp';TH='include/INNC/tensor.hpp';L='src/INNC/layouts.cpp';LH='include/INNC/layouts.hpp';TY='include/INNC/types.hpp';D='include/INNC/dispatcher.hpp';S='src/INNC/storage.cpp'
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None):
  P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["public Tensor API"],hook_needed=None)))
p("C01","Element-wise arithmetic computes every element correctly for every dtype pair",
 "For tensors of equal shape, a+b, a-b, a*b and a/b give a tensor of that shape whose every element is the C++ result of the operator on the two corresponding elements, converted to the result's dtype. This holds for every combination of the six dtypes, in either operand order, and for every memory layout of the operands (contiguous, transposed, strided or reversed views).",
 ["inputs","configurations"],"all operand values, dtype pairs, operators and memory layouts for which the C++ operation is defined",
 "The tests use a handful of literal tensors per operator, mostly i16/f32 and contiguous; 36 dtype pairs x 4 operators x layouts x values are out of reach.",
 [O,UH,D],[("tensor_add/sub/mul/div kernels",O),("operand ordering and dispatch",UH)])
p("C02","Binary operations broadcast shapes exactly like NumPy",
 "A binary operation on tensors of different shapes aligns the shapes at the right; sizes must be equal or 1, a size-1 or missing dimension is repeated, and element i of the result combines the operands' elements at i with repeated dimensions indexed 0. Shapes that do not match under this rule raise an exception and no result is produced. (A size-0 dimension against a size-1 dimension is not covered.)",
 ["inputs","configurations"],"all pairs of shapes, operators, layouts and element values",
 "Tests broadcast three or four fixed shape pairs; the rule quantifies over all pairs, including every incompatible one.",
 [U,T],[("broadcast_range",U),("cnt_from_aug_index",T),("for_each_sizevec",UH)])
p("C03","Comparisons and all() are exact for every dtype pair and value",
 "a<b, a<=b, a>b, a>=b, a==b and a!=b give an i8 tensor holding 1 where the C++ comparison of the two elements is true and 0 elsewhere, for every dtype pair and every value including NaN, infinities and signed zeros. all() is true exactly if no element equals zero, for every dtype and layout, and true for an empty tensor.",
 ["inputs","configurations"],"all bit patterns, dtype pairs and layouts",
 "Tests compare a few small integers; NaN, -0, extreme values and mixed dtypes are never compared, and all() is only called on i8 results.",
 [O,T],[("tensor_lt.. kernels",O),("all",T)])
p("C04","Result dtypes follow the promotion order and casts convert every element",
 "The dtype of an arithmetic result or a concatenation is the later of the operand dtypes in i8<i16<i32<i64<f32<f64. Converting a tensor to another dtype keeps its shape and converts each element as C++ does, for every representable value and every layout; converting to the dtype it already has keeps its values.",
 ["inputs","configurations"],"all dtype pairs, all element values whose conversion is defined in C++",
 "Tests convert a few values between three dtypes; promotion is only observed for a few pairs.",
 [TY,T,O],[("larger_type",TY),("tensor_to_type kernel",O),("type()",T)])
p("C05","Slicing and indexing select exactly the elements Python selects",
 "t[\"start:stop:step, ...\"] selects, per dimension, the elements Python's slice would select: missing fields take their defaults, negative positions count from the end, out-of-range positions are clipped, negative steps go backwards. A plain number selects that position and drops the dimension, omitted trailing dimensions are kept whole. An index out of range, a zero step on a non-empty dimension or too many fields raise an exception.",
 ["inputs"],"all slice strings with numeric fields, all sizes and layouts",
 "Tests try about twenty literal slices of one tensor; the clipping and sign cases form a large space of start/stop/step/size combinations.",
 [T,U,UH],[("operator[] parser and clipping",T),("ssplit, trim_",U)])
p("C06","Views share storage with their source, copies do not",
 "Slices, transposes, detached tensors and reshapes of contiguous tensors are views: an in-place addition to the view or to the source is visible in the other at exactly the corresponding elements and nowhere else, also through chains of views. Results of clone, type conversion, concatenation and arithmetic (and contiguous() of a non-contiguous tensor) are copies: changing either side leaves the other unchanged.",
 ["inputs","programs"],"all chains of view operations, updated elements and values",
 "Tests read views but never write through them, so sharing and independence are unobserved.",
 [T,LH],[("views created over the same storage",T),("clone/contiguous",T)])
p("C07","transpose exchanges two dimensions",
 "For distinct valid dimensions p and q, the transpose has sizes p and q exchanged and its element at an index equals the source's element at the index with positions p and q exchanged; transposing again gives the source back, and transposes of views compose. Equal or out-of-range dimensions raise runtime_error and change nothing.",
 ["inputs"],"all shapes, layouts, dimension pairs and element values; all 64-bit dimension arguments",
 "Tests transpose one 3-d tensor for a few pairs and never pass invalid dimensions on views.",
 [T],[("transpose",T)])
p("C08","reshape keeps the row-major element sequence or refuses",
 "Reshaping a tensor of any memory layout to a shape with the same number of elements keeps the row-major sequence of its elements; a single -1 stands for the size that makes the counts agree. Every other request (different count, negative sizes, several -1, a count that overflows, nothing to infer) raises runtime_error.",
 ["inputs","configurations"],"all source shapes and layouts, all target shapes including every 64-bit size",
 "Tests reshape a few tensors to a few valid shapes; whether a view or a copy is taken depends on strides, and invalid sizes are hardly tried.",
 [T],[("reshape: stride analysis, copy fallback",T),("regularize_size",T)])
p("C09","cat concatenates along a dimension",
 "Concatenating tensors along a dimension gives a tensor whose size there is the sum of theirs, and whose every element is the corresponding element of the input covering that position, converted to the largest dtype among them; inputs may be views, empty or repeated. An empty list, an invalid dimension, or inputs that differ in another dimension raise runtime_error.",
 ["inputs","configurations"],"all lists of tensors, dimensions, dtypes, layouts and values",
 "Tests concatenate three fixed pairs.",
 [T,O],[("cat",T),("tensor_cat kernel",O)])
p("C10","Reductions account for every element exactly once",
 "sum adds every element exactly once (i64 for integer tensors, f64 for floats; 0 for an empty tensor), mean divides that sum by the number of elements (truncating for integers), and max and min return an element of the tensor that no other element exceeds (is below), with the tensor's dtype. This holds for every dtype, shape and memory layout, views included.",
 ["inputs","configurations"],"all element values (no NaN for max/min; sums without rounding), shapes, layouts",
 "Tests reduce one or two literal contiguous tensors.",
 [T,O],[("tensor_sum/mean/max/min kernels",O),("sum/mean/max/min",T)])
p("C11","abs and unary minus act on every element and keep the dtype",
 "abs() and unary minus return a tensor of the same shape and dtype whose every element is the absolute value, respectively the negation, of the source's element; unary plus returns the same values. This holds for every dtype, value (except the most negative integer) and memory layout.",
 ["inputs","configurations"],"all element values, dtypes, shapes and layouts",
 "abs and unary minus are not tested on views or on most dtypes.",
 [T,O],[("abs, operator-",T),("tensor_abs kernel",O)])
p("C12","Constructors produce exactly the requested shape, dtype and contents",
 "zeros, ones, full, eye, the *_like variants, from_blob, scalars and nested initializer lists give a tensor of the requested shape and dtype with exactly the defined contents; from_blob copies the caller's buffer. Ragged lists and sizes whose memory requirement overflows raise an exception instead of yielding a tensor.",
 ["inputs","configurations"],"all shapes (including empty ones), dtypes, fill values and buffers",
 "Tests build a few literal tensors and compare their text.",
 [TN,T,TH,S],[("zeros/ones/full/eye/from_blob",T),("TensorInit",TH),("size computation in create",T)])
p("C13","to_string shows every element at its place",
 "The text of a tensor nests one pair of brackets per dimension with elements in index order separated by \", \", integers in decimal and floats with six decimals; an empty handle prints as []. This holds for every dtype, shape and memory layout and never shows storage outside the tensor's elements.",
 ["inputs","configurations"],"all integer values, shapes and layouts",
 "Tests print several literal tensors; views with negative strides and extreme values are not printed.",
 [L,"src/INNC/types.cpp"],[("to_string_from",L),("innc_type_to_string","src/INNC/types.cpp")])
p("C14","backward gives the exact gradient of every differentiable operation",
 "After backward from a scalar, each leaf that requires grad holds the exact vector-Jacobian product for +, -, *, /, negation, abs, sum, mean, max, min, clone, contiguous, float conversion and cat, whatever gradient arrives at the operation. Gradients of broadcast operands are summed over the repeated dimensions, each gradient has its tensor's shape and dtype, operands that do not require grad get none, and at kinks any subgradient is allowed.",
 ["inputs","configurations"],"all operand values, arriving gradients, shapes and broadcasts, dtype pairs, layouts, subsets of operands requiring grad",
 "Tests compute a few gradients with an arriving gradient of all ones, which hides most errors in how it is used.",
 [F,O],[("step_back of each operation",F),("tensor_mul_acc_f, tensor_div_back_* kernels",O)])
p("C15","backward is exact on every computation graph",
 "For every program of differentiable operations, backward from a scalar result gives each leaf the total derivative: the sum over all paths from the leaf to the result, whatever the sharing of intermediate values, path lengths, unused results, repeated operands, or tensors whose requires_grad was switched off, which block exactly the paths through them.",
 ["programs","inputs"],"all programs over the differentiable operations within the bounds, all leaf values and loss weights",
 "Tests exercise about ten fixed graphs; scheduling errors need particular sharing patterns.",
 [F,T],[("refresh_n_outway and the queue in backward",T),("is_ready counter","include/INNC/function.hpp")])
p("C16","Gradients accumulate until cleared; retention is per tensor",
 "A leaf's gradient is the sum of the contributions of all backward passes since it was last zeroed, zero_grad affects that tensor only, and a refused backward changes nothing. An intermediate tensor keeps its gradient after a pass exactly if retain_grad is set on it, and the retained value is exact.",
 ["histories","inputs"],"all histories of passes, zeroing, refused calls and switching requires_grad, all values",
 "Tests run at most two passes over a graph and check one retained gradient.",
 [F,T,TN],[("try_accumulate_grad, ensure_grad",F),("backward, zero_grad, retain_grad",T)])
p("C17","Gradients flow through views to exactly the aliased elements",
 "If a loss uses slices, transposes or reshapes (or chains of them) of a tensor that requires grad, each element of the tensor receives the sum of the gradients of the view elements that refer to it and elements outside every view receive zero. This holds for several overlapping views, for views of intermediate values that are also used directly, and for tensors that are views themselves.",
 ["inputs","programs"],"all chains and combinations of views within the bounds, all values and weights",
 "Tests take gradients through single views of contiguous leaves.",
 [F,T],[("NoBack, ensure_grad (gradient mirrors the storage)",F)])
p("C18","requires_grad propagates correctly and misuse is refused without effect",
 "The result of an operation requires grad exactly if some operand does (never for comparisons and detach), and the computed values, shapes and dtypes do not depend on requires_grad. Meaningless autograd calls (backward from a non-scalar, a leaf or a constant; requires_grad on integers; converting a tensor that requires grad to integers; in-place addition to it) raise runtime_error and change no value, flag or gradient, so that later passes are exact.",
 ["inputs","configurations","histories"],"all operations, subsets of operands requiring grad, values, kinds of misuse",
 "Tests check the flags of few results and never inspect the state after an error.",
 [UH,T,TN],[("apply_binary_operator",UH),("guards in backward, operator+=, type",T),("requires_grad setter",TN)])
p("C19","No program can corrupt or leak memory through the API",
 "Every sequence of API calls on valid tensors, including ones that raise errors and handles dropped, reassigned or moved in any order, accesses only live memory inside its blocks, and when the last handle is gone all memory has been freed. Views and computation graphs keep what they need alive, so values and gradients stay right after the handles of bases and intermediates are gone.",
 ["programs","histories"],"all call sequences within the bounds, all orders of dropping handles, all values",
 "Tests keep their handles alive to the end and drop them in one order; sanitizers see only the executed sequences.",
 [T,F,S,TN],[("shared ownership of storage, graph nodes and gradients",T),("UntypedStorage",S)])
p("C20","Operations leave their operands untouched",
 "Apart from in-place addition, no operation or query changes the values, dtype, shape, strides or flags of its operands, also when one tensor is passed twice or is a view. A backward pass changes gradients only: values of leaves, intermediates and constants stay bit for bit the same.",
 ["inputs","configurations"],"all operations, layouts, dtypes and values",
 "Tests rarely look at operands after an operation.",
 [O,T,F],[("kernels write only to a fresh result",O)])
p("C21","In-place addition updates exactly the target's elements",
 "t += u adds to each element of t the corresponding element of u, broadcast to t's shape, in the operands' common C++ type converted to t's dtype; it returns t, is visible through all views of t, and changes neither other storage nor u. Incompatible shapes and targets that require grad raise an exception and change nothing.",
 ["inputs","configurations"],"all shapes, layouts, dtype pairs and values whose sum is defined in C++ (right-hand sides not sharing storage with the target)",
 "In-place addition is not covered by the tests except indirectly.",
 [T,O],[("operator+=",T),("tensor_add kernel",O)])
p("C22","randn fills every element with its own draw",
 "randn and randn_like give a tensor of the requested shape and floating dtype in which every element holds its own finite draw of the generator, with no element uninitialised or written outside the tensor. Integer dtypes raise runtime_error.",
 ["inputs","configurations"],"all shapes, dtypes and sequences of draws",
 "The test only checks that an integer dtype is refused.",
 [T,"src/INNC/utils/rand.cpp"],[("randn",T)])
p("C23","Shape queries agree with the elements a tensor holds",
 "size, dim, numel and type describe exactly the tensor built, also for every chain of views; stride gives, per dimension of more than one element, the distance in the storage between neighbours. is_contiguous is true for fresh tensors, copies and views laid out row by row, and false for any view that is not.",
 ["inputs","programs"],"all shapes, slices and chains of views within the bounds, all dtypes",
 "Tests check is_contiguous and size on a few tensors and never call stride or dim.",
 [TN,T,L],[("size/stride/numel",T),("is_contiguous",L)])
p("C24","Any text given as a slice is handled safely",
 "Indexing with any string of any bytes either raises an exception and changes nothing or gives a view that lies inside the source: no more dimensions or elements than it, and every element one of its elements. It never crashes, reads or writes outside the tensor, or leaks.",
 ["inputs"],"all byte strings within the bound, several shapes and layouts",
 "Tests use well-formed slices.",
 [T,U,UH],[("operator[] parser",T),("ssplit, trim_",U)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
checks=[]
for x in P:
  i=x['id']
  h=open(f'/verif/harness/{i}.cpp').read()
  ents=re.findall(r'//@ entry: (\w+)',h)
  b=re.search(r'//@ bounds: (.*)',h).group(1); o=re.search(r'//@ outside: (.*)',h).group(1)
  checks.append(dict(property=i,quick_cmd=f"python3 check.py {i} quick",thorough_cmd=f"python3 check.py {i} thorough",evidence_file=f"evidence/{i}.json",technique="symbolic execution of the library's LLVM bitcode with Z3 deciding every assertion (bounded)",level="model_checking",
   level_note=f"Holds for every value within the bounds: {b}. Outside: {o}. Trusts clang 18's bitcode, the executor's models of libc/libstdc++ externals (spot-checked by replaying witness paths natively under ASan) and Z3."))
json.dump(dict(version=1,setup_cmd="make -s -C engine",checks=checks,not_applicable=[],notes="No hooks: the harnesses use only the public API. See DESIGN.md."),open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
