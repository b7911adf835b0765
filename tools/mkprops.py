#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list of properties is kept here in readable form).
import json, os
V='include/boost/variant/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[V+f if not f.startswith('include') else f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p('C01','Never empty: every live variant holds one value of the type which() names',
  'After any sequence of public operations on variants, including operations that end in an exception thrown by a bounded type or by allocation, every live variant holds exactly one live object, of the bounded type at index which(), with 0 <= which() < number of bounded types and empty() == false. Visitation and get() reach exactly that object.',
  ['histories','fault_sequences','programs'],'all sequences of construct/copy/move/assign/swap/destroy over two variants, every throw point of every bounded-type operation and every allocation failing or not, for bounded type lists covering each combination of throwing/non-throwing special members',
  'The nonempty test samples a few countdown values on one type list with one failing assignment; it never continues the history from the states reached after a failure, nor mixes the dispatch classes of special members.',
  ['variant.hpp','detail/backup_holder.hpp','detail/visitation_impl.hpp'],
  [('assigner / move_assigner / backup_assigner order of destroy, construct, indicate_which',V+'variant.hpp'),('which_ sign encodes heap backup',V+'variant.hpp: indicate_backup_which, using_backup, which')],['which()','empty()','apply_visitor','get'])
p('C02','Every constructed value is destroyed exactly once; nothing leaks or dangles',
  'Over any history of public operations, including ones ended by exceptions, every object the library constructs is destroyed exactly once and only while alive, every heap block it allocates is released exactly once, and no operation reads, assigns to, visits or overwrites a dead object. When the last variant is destroyed nothing constructed on its behalf remains.',
  ['histories','fault_sequences','programs'],'all histories over two variants and their temporaries, every throw point and allocation failure, all dispatch classes of bounded types including recursive_wrapper',
  'Tests count instances on a few straight-line scenarios without faults; leaks and double destruction on exception paths and after a failed assignment are not sampled.',
  ['variant.hpp','detail/backup_holder.hpp','recursive_wrapper.hpp'],
  [('destroyer visitor, destroy_content',V+'variant.hpp'),('backup_holder ownership, recursive_wrapper ownership',V+'detail/backup_holder.hpp, '+V+'recursive_wrapper.hpp')])
p('C03','Copying yields an equal, independent variant and leaves the source unchanged',
  'Copy construction and copy assignment make the destination hold the same bounded type and value as the source, whatever the two variants held before and whatever failures they went through; the source is not modified, and later changes to either do not affect the other. Self-assignment leaves the variant unchanged.',
  ['histories','inputs','programs'],'every pair of prior states (each bounded type, direct or after an earlier failed assignment) and every type list class',
  'Tests copy a handful of type pairs in fresh states.',
  ['variant.hpp','recursive_wrapper.hpp','detail/backup_holder.hpp'],[('copy constructor / variant_assign / assigner / copy_into / assign_storage',V+'variant.hpp')])
p('C04','Moving transfers the value without copying and leaves a valid source',
  'Move construction and move assignment give the destination the type and value the source held, whatever either held before; the source stays valid, holding the same bounded type as before. A bounded type whose move construction and move assignment cannot throw (not one behind recursive_wrapper, whose move allocates) is moved, never copied, and variants of move-only types can be move-constructed, move-assigned and assigned from rvalues.',
  ['histories','inputs','programs'],'every pair of prior states and every class of bounded type (move-only, nothrow-move, throwing move, copy-only)',
  'rvalue tests use one or two element types and fresh variants, mostly with trivially observable moves.',
  ['variant.hpp','detail/move.hpp','recursive_wrapper.hpp','detail/initializer.hpp'],[('move constructor / move_assigner / move_into / move_storage / direct_mover / initialize(T&&)',V+'variant.hpp, '+V+'detail/initializer.hpp')])
p('C05','A failed assignment propagates its exception and keeps or falls back as stated',
  'If an assignment to a variant throws, exactly the exception thrown by the bounded type (or std::bad_alloc) reaches the caller, and no assignment whose exception was raised returns normally. Afterwards, if the old and new bounded types are the same the variant still holds that type; otherwise it holds its previous value unchanged, unless some bounded type is nothrow default constructible, in which case it may instead hold a default-constructed value of such a type, boost::blank being chosen when it is a bounded type; if the types differ and the incoming type is nothrow copy constructible (or the value is moved in and it is nothrow move constructible) the assignment does not throw.',
  ['fault_sequences','histories','programs'],'every throw point on every assignment form from every prior state, for type lists with and without fallback types and with each class of incoming type',
  'Tests trigger a small number of throws on one or two type lists and check only that the variant is not empty.',
  ['variant.hpp'],[('assigner::assign_impl overloads, backup_assigner, find_fallback_type',V+'variant.hpp')])
p('C06','Converting construction and assignment pick the overload-resolution type',
  'Constructing or assigning from a value that is not itself one of the bounded types stores the conversion of that value to the bounded type ordinary overload resolution would select, and constructing or assigning from a value of exactly a bounded type stores that type with that value. A variant over other types is converted by converting its current content in the same way; an lvalue argument is never modified.',
  ['inputs','programs','configurations'],'every source value category (lvalue, const lvalue, rvalue), each bounded type, each content of a source variant, prior state of the destination',
  'Tests enumerate a few literal conversions.',
  ['variant.hpp','detail/initializer.hpp'],[('initializer overload chain, convert_construct, convert_copy_into, convert_move_into',V+'detail/initializer.hpp, '+V+'variant.hpp')])
p('C07','swap exchanges the two values',
  'swap (member or free) leaves each variant holding exactly the type and value the other held before, for every pair of prior states; swapping a variant with itself changes nothing. If an exception escapes from a bounded type, both variants still hold a valid value and nothing leaks. A value of a type whose moves cannot throw (not one behind recursive_wrapper) is never copied by swap, so swapping two such values does not throw.',
  ['histories','inputs','fault_sequences'],'every pair of prior states including states after failed assignments, same and different types, types with their own swap, every throw point',
  'The swap test exercises a few concrete pairs without faults.',
  ['variant.hpp','detail/move.hpp'],[('variant::swap, swap_with, move_swap',V+'variant.hpp, '+V+'detail/move.hpp')])
p('C08','Visitation calls the visitor exactly once, with the content itself',
  'Applying a visitor to a variant calls it exactly once, with the current content as a value of its exact bounded type (recursive wrappers removed), the very object that is stored and with the variant\'s constness and value category, and returns exactly what the visitor returned (by reference where it returns one; as the common type of the overloads\' results when the visitor declares no result_type). This holds for every bounded type index and any number of bounded types, and changes made through a non-const visit change the variant; an exception from the visitor propagates.',
  ['inputs','programs','histories','configurations'],'every index of lists of 1 to 30+ types, const/non-const variants and visitors, every prior state including after failed assignments, C++11 and C++14 return-type rules (static_visitor and lambdas)',
  'Visit tests use two- or three-type variants; dispatch beyond the first unrolled block, backup states and value identity are not covered exhaustively.',
  ['variant.hpp','detail/visitation_impl.hpp','detail/apply_visitor_unary.hpp','static_visitor.hpp'],[('visitation_impl switch and its continuation step',V+'detail/visitation_impl.hpp'),('invoke_visitor',V+'variant.hpp'),('apply_visitor unary',V+'detail/apply_visitor_unary.hpp')])
p('C09','Multi-variant and delayed visitation pass every content in argument order',
  'Applying a visitor to two or more variants calls it exactly once, with each variant\'s current content in the order the variants were given and with its own type, and returns what the visitor returned (by reference where it returns one; as the common type of the overloads\' results when the visitor declares no result_type). A delayed visitor object applies the wrapped visitor in the same way to the variants it is called with.',
  ['inputs','programs','configurations'],'every combination of contents of 2..5 variants over different type lists, const and non-const arguments, C++11 and C++14 implementations',
  'Multivisitor tests use a fixed combination of values.',
  ['detail/apply_visitor_binary.hpp','detail/apply_visitor_delayed.hpp','detail/multivisitors_cpp11_based.hpp','detail/multivisitors_cpp14_based.hpp'],[('apply_visitor_binary_unwrap/invoke, multivisitors one_by_one_visitor_and_value_referer',V+'detail')])
p('C10','get returns the stored object when the type matches and fails otherwise',
  'get<U> on a variant (pointer, reference, const or rvalue form; strict or relaxed) refers to the stored object itself exactly when the current content is a U; in every other case the pointer forms return null and the reference forms throw bad_get. A null variant pointer yields null, and get never modifies the variant.',
  ['inputs','programs','histories'],'every U in and (relaxed) outside the bounded types, every content, const/non-const, every prior state, recursive wrappers, references',
  'The get tests sample a few types with fresh variants.',
  ['get.hpp'],[('get_visitor, strict_get/relaxed_get overloads',V+'get.hpp')])
p('C11','polymorphic_get finds the content by base class or exact type, else fails',
  'polymorphic_get<U> yields the stored object viewed as U when the content is a U or a class publicly and unambiguously derived from U, with the correct base-subobject address and constness. Otherwise the pointer forms return null and the reference forms throw bad_polymorphic_get; the variant is never modified.',
  ['inputs','programs'],'every content, U exact/base/secondary base/unrelated, const and non-const forms, strict and relaxed forms',
  'Tests sample a few polymorphic hierarchies.',
  ['polymorphic_get.hpp'],[('polymorphic_get_visitor, strict/relaxed forms',V+'polymorphic_get.hpp')])
p('C12','Comparison orders by index, then by content, consistently across operators',
  'a == b holds iff both have the same which() and the contents compare equal with the bounded type\'s ==; a < b holds iff a.which() < b.which(), or they are equal and a\'s content < b\'s content with the operands in that order. !=, >, <=, >= are consistent with these, for every pair of contents and prior states, and comparing does not modify either operand.',
  ['inputs','programs','histories'],'every pair of contents of every index, abstract == and < relations, all six operators',
  'Comparison tests sort a few concrete vectors.',
  ['variant.hpp'],[('operator==, operator<, comparer, equal_comp, less_comp',V+'variant.hpp')])
p('C13','Equal variants hash equal and hashing covers type and content',
  'hash_value, boost::hash and std::hash of a variant depend only on which() and the hash of the current content: variants equal in both give the same result whatever their histories, and both which() and the content hash enter the result. Hashing never modifies the variant.',
  ['inputs','histories'],'every content of every index, every prior state (direct or after a failed assignment)',
  'Hash tests compare a few sampled values.',
  ['detail/hash_variant.hpp','detail/std_hash.hpp'],[('hash_value / variant_hasher',V+'detail/hash_variant.hpp'),('std::hash specialisation',V+'detail/std_hash.hpp')])
p('C14','which(), type(), empty() and default construction report the content',
  'which() is the zero-based position of the current bounded type in the list, type() is that type\'s type_info (recursive wrappers removed), empty() is always false, and a default-constructed variant holds a value-initialised first bounded type. If the first type\'s default constructor throws, no object is created and nothing leaks.',
  ['inputs','programs','histories'],'every index of small and large lists, every prior state, first types that are scalar, class, wrapped or throwing',
  'Tests check a few indices.',
  ['variant.hpp'],[('which, type, reflect, empty, variant()',V+'variant.hpp')])
p('C15','Recursive variants own their children with value semantics',
  'A value held through recursive_wrapper, make_recursive_variant or recursive_variant_ behaves like the value itself: copies are deep and independent, each is destroyed with its owner exactly once, visitation and get see the wrapped value and never the wrapper, and construction, copy, move, assignment and swap transfer the value even when its constructor or the allocation throws. A wrapper always owns an object, including after being moved from.',
  ['histories','inputs','fault_sequences','programs'],'trees of bounded shape, all operations on wrapped alternatives from all prior states, every throw and allocation-failure point',
  'Recursive tests build fixed trees and print them.',
  ['recursive_wrapper.hpp','recursive_variant.hpp','detail/enable_recursive.hpp','detail/substitute.hpp'],[('recursive_wrapper structors, assign, swap, get_pointer',V+'recursive_wrapper.hpp'),('substitute / rebind1',V+'detail/substitute.hpp, '+V+'detail/enable_recursive.hpp')])
p('C16','Operations declared noexcept never throw',
  'No public operation declared noexcept for a given variant type can let an exception reach its boundary (which would terminate the program), and move construction and move assignment are noexcept exactly when every bounded type\'s corresponding moves are. Destruction, which(), empty() and type() never throw.',
  ['programs','fault_sequences'],'all bounded type classes; every path from each noexcept boundary',
  'Tests check a few is_nothrow traits; a wrong noexcept only shows when the operation throws.',
  ['variant.hpp','recursive_wrapper.hpp'],[('is_variant_move_noexcept_constructible/assignable and BOOST_NOEXCEPT(_IF) declarations',V+'variant.hpp')])
p('C17','Const operations are read-only and share no hidden state',
  'Operations on const variants (copying from, comparing, hashing, visiting, get, which, type, streaming, and distinct variants in general) write nothing to the operand\'s storage or to any shared or static state, so distinct threads may perform them concurrently. The library keeps no mutable static data.',
  ['schedules','inputs','programs'],'all const operations on every content and prior state; all functions of the library instantiated by the drivers',
  'Nothing in the test suite runs concurrently or checks for writes.',
  ['variant.hpp','get.hpp','polymorphic_get.hpp','detail/hash_variant.hpp','detail/variant_io.hpp'],[('const-qualified members and visitors',V+'variant.hpp')])
p('C18','Values are stored in place, suitably aligned, without unneeded allocation',
  'A variant\'s value lives inside the variant\'s own storage at an address aligned for its type, as is everything else the library keeps there (only a value preserved by a failed assignment, or one behind recursive_wrapper, lives on the heap), and the variant is no larger than its largest bounded type (at least a pointer) plus a discriminator, each rounded up to the alignment. No operation allocates dynamic memory unless it is an assignment or swap that changes the held type to one whose copy and move construction can both throw while no bounded type is nothrow default constructible, or a recursive_wrapper or a value preserved on the heap is involved.',
  ['programs','configurations','inputs'],'type lists mixing sizes, alignments and throwing classes, with and without BOOST_VARIANT_MINIMIZE_SIZE; all operations',
  'Tests do not check addresses, alignment or allocation.',
  ['variant.hpp'],[('make_storage, add_alignment, max_value, which_t, never_uses_backup_flag',V+'variant.hpp')])
p('C19','Ill-formed uses are rejected at compile time',
  'Programs that the interface forbids do not compile: constructing or assigning from a value convertible to no bounded type, strict get or strict polymorphic_get of a type not in the list, applying a visitor lacking an overload for some bounded type, default-constructing a variant whose first type is not default constructible, comparing a variant with a non-variant, copying move-only contents, and binding mutable access to a const variant. The closest well-formed program compiles in each case.',
  ['programs'],'a witness per rejection rule, each paired with an accepted control, under the supported language modes',
  'Run-time tests cannot contain programs that must fail to compile.',
  ['variant.hpp','get.hpp','polymorphic_get.hpp','detail/element_index.hpp','detail/apply_visitor_unary.hpp'],[('is_variant_constructible_from, holds_element static asserts, deleted overloads',V+'variant.hpp, '+V+'get.hpp')])
p('C20','Type-level interface computes the documented types',
  'variant::types, make_variant_over, make_recursive_variant, recursive_variant_ substitution, is_recursive_wrapper/unwrap_recursive, is_constructible and the nothrow traits, and the result types of visitation compute the documented types for every bounded type list, including sequences given as MPL sequences and arbitrarily nested recursive_variant_ placeholders.',
  ['programs','configurations'],'a table of type lists and expected types, checked by the compiler',
  'Tests instantiate a few typedefs without checking their identity.',
  ['variant.hpp','recursive_variant.hpp','recursive_wrapper_fwd.hpp','detail/over_sequence.hpp','detail/make_variant_list.hpp','detail/substitute.hpp','detail/enable_recursive.hpp','static_visitor.hpp'],[('substitute, quoted_enable_recursive, over_sequence, make_variant_list',V+'detail')])
p('C21','Streaming a variant streams exactly its content',
  'operator<< on a variant writes exactly what writing its current content would write, once, to the same stream, and returns that stream; boost::blank prints its own representation and the variant is not modified. This holds for every content and prior state, nested variants and recursive wrappers included.',
  ['inputs','programs','histories'],'every content of every index and prior state, an abstract stream recording what is written',
  'IO is checked on a handful of ints and strings.',
  ['detail/variant_io.hpp'],[('printer visitor and operator<<',V+'detail/variant_io.hpp')])
p('C22','visitor_ptr calls its function for its type and throws bad_visit otherwise',
  'A visitor made by visitor_ptr calls the wrapped function exactly once with the visited value and returns its result when the value has the function\'s parameter type; for any other type it throws bad_visit and does not call the function. This holds for value, reference and const-reference parameter types.',
  ['inputs','programs'],'each parameter form, each content',
  'No or minimal direct tests of visitor_ptr on mismatching contents.',
  ['visitor_ptr.hpp','bad_visit.hpp'],[('visitor_ptr_t::operator()',V+'visitor_ptr.hpp')])
p('C23','Variants over references alias their referents',
  'A variant with a reference bounded type refers to the object it was constructed from: get and visitation yield that very object with its constness, modifications go to it, copies of the variant refer to the same object, and the variant never constructs, copies or destroys the referent.',
  ['inputs','programs','histories'],'references to tracked and scalar types, const and non-const, copy construction from every content',
  'The reference test covers one or two concrete cases.',
  ['variant.hpp','detail/cast_storage.hpp','get.hpp','detail/initializer.hpp'],[('cast_storage / reference_content handling',V+'detail/cast_storage.hpp, '+V+'detail/initializer.hpp')])
p('C24','Build configurations change representation, not behaviour',
  'Defining BOOST_VARIANT_MINIMIZE_SIZE, a different visitation unrolling limit, BOOST_NO_EXCEPTIONS, BOOST_NO_RTTI/-fno-rtti, NDEBUG or relaxed get by default leaves the behaviour of construction, assignment, swap, visitation, get, comparison and which() the same, for any number of bounded types including those around 20 and 127.',
  ['configurations','histories','inputs'],'the listed configuration macros, language modes 11 to 23, list sizes around each representation or unrolling boundary',
  'The baseline test build uses a single configuration.',
  ['variant.hpp','detail/visitation_impl.hpp','variant_fwd.hpp','get.hpp','detail/config.hpp'],[('which_t selection, BOOST_VARIANT_VISITATION_UNROLLING_LIMIT, configuration #ifs',V+'variant.hpp, '+V+'detail/visitation_impl.hpp')])
p('C27','Headers are self-contained and usable from any number of translation units',
  'Every public header compiles as the first line of a translation unit in every supported language mode, may be included repeatedly and in any order with the others, and provides there what it documents; programs of any number of translation units that include them link: no header defines a non-inline function or variable with external linkage.',
  ['programs','configurations'],'every public header, alone and before all others, in each language mode and with both compilers; every definition emitted when the whole interface is instantiated',
  'Every test is a single translation unit that includes boost/variant.hpp (or a few headers) first.',
  ['include/boost/variant.hpp','variant.hpp','get.hpp','polymorphic_get.hpp','recursive_wrapper.hpp','recursive_variant.hpp','visitor_ptr.hpp','apply_visitor.hpp','multivisitors.hpp','static_visitor.hpp','bad_visit.hpp','detail/move.hpp','detail/hash_variant.hpp'],[('include directives of each public header; linkage of namespace-scope definitions',V+'*.hpp')])
p('C25','Deeply nested recursive variants do not exhaust the stack',
  'Copying, comparing, visiting or destroying a recursive variant of any nesting depth completes without exhausting the call stack.',
  ['inputs'],'all nesting depths',
  'Depth is unbounded.',
  ['recursive_wrapper.hpp','variant.hpp'],[('recursion through recursive_wrapper',V+'recursive_wrapper.hpp')])
p('C26','Hash values of different variants spread well',
  'Variants that differ in type or content receive different hash values with the probability expected of a good hash function.',
  ['inputs'],'all pairs of contents','Statistical property of runtime values.',
  ['detail/hash_variant.hpp'],[('hash_combine use',V+'detail/hash_variant.hpp')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
for q in P: assert len(q['title'])<=80,(q['id'],len(q['title']))
open(out,'w').write(''.join(json.dumps(q)+'\n' for q in P))
print(len(P))
