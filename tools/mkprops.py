#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it stays readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
TP="src/tagged_pointer.rs"; TB="src/tagged_box.rs"; TG="src/taggable.rs"; M="src/tagged_box_macro/mod.rs"; MM="src/tagged_box_macro/meta_macros.rs"; D="src/discriminant.rs"; B="build.rs"

p("C01","An address and a tag survive being packed into one word",
 "For every address within the configured pointer width and every tag up to that width's maximum, a tagged pointer made from the two gives back exactly that address through every address accessor (integer, const, mutable, shared and exclusive reference) and exactly that tag. The static helpers that store, fetch and strip a tag agree with this on every 64-bit word, and a placeholder (dangling) pointer carries its tag and a non-null address that is aligned for its type.",
 ["inputs","configurations"],"all addresses < 2^W, all tags < 2^(64-W), all raw 64-bit words, all 16 widths W, debug and optimised builds",
 "Unit tests use a handful of addresses at the default width only; a wrong mask, shift or cast at another width, or one that only bites on certain bits, is never exercised.",
 [TP,D],[("TaggedPointer::store_discriminant / fetch_discriminant / strip_discriminant",TP),("TaggedPointer::new, dangling, as_u64, as_ptr, as_mut_ptr, as_ref, as_mut_ref, discriminant",TP),("POINTER_WIDTH, DISCRIMINANT_MASK",D)],
 [dict(name="tagged_ptr",meaning="the packed word",where=TP)],["public TaggedPointer API"])
p("C02","Out-of-range tags and addresses are refused, never wrapped",
 "Every safe constructor (of tagged pointers, tagged boxes and placeholders) that is given a tag above the configured maximum, or an address above the configured maximum, panics instead of producing a handle; this holds in optimised as well as debug builds and for zero-sized payloads too, while every in-range tag and address is accepted. An enum with more variants than there are tags never yields a handle that reads back as another variant: it is rejected at compile time or the conversion panics.",
 ["inputs","configurations"],"all tags of the tag type above the maximum, all addresses above 2^W, payload sizes including zero, all widths, debug and optimised builds, enum sizes around the limits",
 "There is one should_panic test, for one tag at the default width in a debug build; wrapped tags in optimised builds or for unit and zero-sized payloads are invisible to it.",
 [TP,TB,M,D],[("range assertions in TaggedPointer::new and dangling",TP),("variant-count assertion in tagged_box!",M),("MAX_DISCRIMINANT, MAX_POINTER_VALUE",D)],None,["panic / no panic of TaggedPointer::new, dangling, TaggedBox::new, dangling, from_raw, into_tagged_box"])
p("C03","The pointer-width setting selects one consistent configuration",
 "For every documented width setting W the exported constants agree with each other and with W: the maximum tag is 2^(64-W)-1 and fits the tag type, the maximum address and the mask are 2^W-1, and the exported bit counts are W and 64-W; an unset or unrecognised setting means 60, and changing the setting takes effect at the next build. Under every setting macro-made enums compile and round-trip, and a tagged pointer, tagged box and container each remain a single 8-byte word.",
 ["configurations","histories"],"the settings 48bits..63bits, unset and unrecognised ones, and every sequence of builds that changes the setting",
 "The test suite is only ever built with the variable unset; the 15 other configurations, and switching between them, are never built.",
 [B,D,TP,TB,M],[("environment variable to cfg translation",B),("generate_discriminants! table",D),("discriminant casts in the macro",M)],None,["tagged_box::discriminant constants in a built program"])
p("C04","Enum values round-trip through containers and boxes unchanged",
 "For every enum declared with the macro, with any mixture of unit, empty-tuple, tuple (up to 32 fields) and named-field variants whose fields may have any size and alignment, converting a value into a container or tagged box and back by any conversion path gives the original value: the same variant with every field in its own place and unchanged. Conversions from a bare payload or payload tuple build the variant that declares that payload, with the fields in order.",
 ["programs","inputs","histories"],"all enum declarations (variant kinds, arities 0..32, field types, trailing-comma forms), all field values, all conversion paths in any sequence",
 "Tests use a few small variants of uniform layout; most tuple arities have no test at all, and a field swapped or read with another layout is only visible for particular type combinations.",
 [M,MM,TG,TB],[("__taggable_into_box, __expand_tuple_arm",MM),("__boxed_into_inner, __from_tagged_box, __derive_from, __expand_tuple",M),("TaggableContainer::into_inner, TaggableInner",TG)],None,["Container::from, into_inner, into_tagged_box, from_tagged_box"])
p("C05","A variant's tag is its declared position; unknown tags are refused",
 "The tag of a stored enum value is the zero-based position of its variant in the declaration, whatever its kind and whichever conversion produced it, so distinct variants always have distinct tags, and the tag survives cloning, copying and mutation of the payload. Every operation that interprets a handle whose tag belongs to no variant (extracting, borrowing, cloning, comparing, printing) panics instead of producing a value; only a container that is Copy may still be copied.",
 ["programs","inputs","histories"],"all enum declarations and variant positions, all tags from the variant count to the maximum, all interpreting operations",
 "Tests round-trip values but never look at the tag a macro-made enum stores, and never present a tag no variant owns.",
 [M,MM,TB],[("__counter_enum",M),("panic arms of __boxed_into_inner, __from_tagged_box, __ref_from_tagged",M)],None,["TaggedBox::discriminant, panics of into_inner / from_tagged_box / ref_from_tagged_box"])
p("C06","A tagged box hands back exactly what was last stored in it",
 "For every payload type (any size and alignment, zero-sized included) and in-range tag, every accessor of a tagged box (shared and exclusive reference, const and mutable pointer, extraction, raw pointer, standard box) gives the value last stored or written in place, at one properly aligned, non-null address that does not change during the box's life. Writing through a box never changes its tag, and going out to a raw pointer and back in keeps address, value and tag.",
 ["inputs","histories","programs"],"payload sizes 0..several pages, alignments 1..4096, all tags, all sequences of accesses, writes and raw round trips",
 "Tests read a value back once, immediately after storing it, for a few types of alignment at most 8.",
 [TB,TP],[("TaggedBox::new, new_unchecked, dangling, as_ref, as_mut_ref, as_ptr, as_mut_ptr, into_inner, into_raw, from_raw, into_box, discriminant",TB)],None,["public TaggedBox API; the global allocator"])
p("C07","No value is dropped twice and no block freed twice or too early",
 "Over any sequence of permitted operations (storing, borrowing, cloning, comparing, printing, extracting, raw and standard-box round trips, discarding) every stored value, zero-sized ones included, is dropped at most once and only after its owner has given it up; borrowing, comparing and printing drop nothing. Every heap block is allocated and freed with the payload's own size and alignment, freed at most once, and never freed while a handle can still reach it; nothing is written outside it.",
 ["histories","inputs"],"all operation sequences over several handles, payload kinds with and without drop glue and zero-sized payloads, handles that are copies of each other",
 "Tests never count drops or frees; a double drop is silent for their plain payloads.",
 [TB,M,TP],[("ManuallyDrop in into_inner / into_raw and in the borrowed views",TB),("mem::forget of zero-sized values",TB),("ManuallyDrop in __ref_from_tagged",M)],None,["drop glue of payloads; the global allocator"])
p("C08","Storage and values are given back when their last owner is gone",
 "When a handle is discarded, its value extracted, or its ownership passed to a standard box that is then dropped, the heap block behind it is freed and the value (unless it was moved out) is dropped; no operation leaves behind an additional block or value that nobody owns. At the end of any sequence of operations that has given up everything, the live heap and the set of undropped values are what they were at the start.",
 ["histories","inputs"],"all operation sequences over several handles that end with every handle given up",
 "Tests never measure the heap.",
 [TB,M],[("Box::from_raw in into_box",TB),("(missing) release on drop and on extraction",TB)],None,["the global allocator; drop glue of payloads"])
p("C09","Clones are independent, copies share, and other handles never move",
 "Cloning a container or box produces an equal value with the same tag in storage of its own, so that mutating, extracting or discarding either never affects the other; only a container that is Copy may be cloned by copying it bitwise. A bitwise copy (where the payload is Copy) designates the same storage and stays usable after the value was extracted through another copy. An operation on one handle never changes the value, tag or address seen through any unrelated handle.",
 ["histories","inputs"],"all sequences of clone, copy, mutate, extract and discard over several handles",
 "One test clones once and mutates the clone; aliasing between more handles, later operations and copies are not looked at.",
 [TB,M],[("Clone and Copy for TaggedBox",TB),("derives applied to the container",M)],None,["TaggedBox::clone, Container::clone; values and addresses of all other handles"])
p("C10","Comparing handles gives what comparing their values gives",
 "For any two handles of the same enum, equality, inequality, partial order (including incomparable values) and total order of the containers and of the boxes give exactly the result the same comparison gives on the enum values, with the operands in the same order and regardless of where the payloads are stored. Comparisons leave both operands unchanged, also when both operands are the same handle or share storage.",
 ["inputs","programs"],"all pairs of values of all variant kinds, incomparable values included, all six operators plus partial_cmp and cmp",
 "Tests compare two values of one variant; across variants, with NaN, with reversed operands or with Ord nothing is compared.",
 [TB,M],[("PartialEq, PartialOrd, Ord for TaggedBox",TB),("derives applied to the container",M)],None,["==, !=, <, <=, >, >=, partial_cmp, cmp on containers and boxes"])
p("C11","Printing a handle shows its value; number formats show its address",
 "Debug and Display of a tagged box produce the text the stored value itself produces under the same format specification, and derived Debug of a container shows that text as its field. Hexadecimal, octal, binary and pointer formatting of boxes and tagged pointers shows the address with the tag removed, under the same format specification; Debug of a tagged pointer shows its raw word, address and tag.",
 ["inputs","programs"],"all values of all variant kinds, all addresses and tags, format flags (alternate, width, fill, precision, zero padding)",
 "No test formats anything.",
 [TB,TP,"src/lib.rs"],[("fmt::Debug / Display for TaggedBox",TB),("fmt::Debug / Pointer for TaggedPointer",TP),("impl_fmt!","src/lib.rs")],None,["format! on boxes, containers and tagged pointers"])
p("C12","A failing operation leaves every handle and value intact",
 "When a payload's own clone, comparison or formatting code panics, a borrowing callback panics, the output of a formatting call fails, or the allocator refuses memory, the failure is reported to the caller (panic, or the formatter's error) and no handle is produced by the failed operation. All handles that existed before still designate the same address, tag and value, no value is dropped twice or lost from them, and later operations behave as if the failed one had not been attempted.",
 ["fault_sequences","histories"],"a fault at every point where payload code, the callback, the writer or the allocator is invoked, in every borrowing, cloning, comparing, formatting and storing operation, after any history",
 "No test injects a fault.",
 [TB,M],[("ManuallyDrop around the borrowed value",M),("allocation check in TaggedBox::new",TB),("error propagation in fmt impls",TB)],None,["catch_unwind around the operation, then all other observables"])
p("C13","A borrowed view sees the stored value once and consumes nothing",
 "Borrowing the value of a handle runs the callback exactly once, synchronously, with a value equal to the stored one (same variant, same fields, the very same payload objects and not duplicates), however often and however deeply nested views of the same or other handles are taken. Afterwards the handle still owns the unchanged value; nothing was dropped, and changes the callback makes through shared mutability are kept.",
 ["histories","programs","inputs"],"all variant kinds and arities, repeated and nested views, before and after mutation, payloads with interior mutability",
 "Tests take views of four shapes and do not notice a callback that never runs, runs twice, or sees a temporary that is then dropped.",
 [M,TB,TG],[("__ref_from_tagged",M),("TaggableInner::ref_from_tagged_box",TG)],None,["TaggableInner::ref_from_tagged_box"])
p("C14","Tagged pointers compare, order and hash by address and tag",
 "Two tagged pointers are equal exactly when both their addresses and their tags are equal, and equal ones hash alike; their order is total and antisymmetric, sorts by tag first and by address among equal tags, and agrees with equality. Copies are equal to their originals, and the raw word from which a pointer can be taken apart again determines it completely.",
 ["inputs","configurations"],"all pairs of tagged pointers at every width",
 "No test compares, orders or hashes a tagged pointer.",
 [TP],[("derived PartialEq, Eq, Hash, PartialOrd, Ord, Clone, Copy on TaggedPointer",TP)],None,["==, cmp, partial_cmp, Hash on TaggedPointer"])
p("C15","Handles may be shared between threads exactly as their values may",
 "Threads that concurrently borrow, clone, compare, print and convert handles they share or own obtain, under every schedule, the results a sequential execution gives, because operations on different handles, and read operations on the same handle, do not interfere. A container or box of an enum can be sent to or shared with another thread exactly when the enum itself can.",
 ["schedules","programs"],"all interleavings of read operations on shared handles and of arbitrary operations on unshared handles by several threads; enums with and without thread-safe payloads",
 "All tests are single-threaded.",
 [TB,M,TP],[("absence of shared state",TB),("PhantomData<T> in TaggedBox (auto traits)",TB)],None,["results of operations in each thread; Send/Sync of the handle types"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
