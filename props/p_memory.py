P('M01', 'Slots of a frame are aligned, disjoint and constructed and destroyed once',
  'Slots and sub-frames added to a frame layout are aligned for their type, do not overlap, and lie inside the allocation the layout asks for; slots are placed at the first suitable offset, so that consecutive slots of one type '
  'form an array; the alignment of a layout is the largest of its slots and its size is the smallest multiple of the alignment that holds them. Initialising one or several blocks of a layout clears them and then constructs each object that needs it exactly once in each block, '
  'destroying destroys exactly those objects once. A frame pointer leads a slot to base plus offset. An owned allocation, also one that is moved or assigned, is initialised, destroyed and freed exactly once, with its own alignment.',
  ['inputs', 'histories'], 'all sequences of slots and sub-frames, all sizes and alignments, all histories of the owning allocation',
  'The tests build a handful of layouts; a mistake shows only for particular remainders of sizes and mixes of types, and then as silent memory corruption.',
  ['arolla/memory/frame.h', 'arolla/memory/frame.cc', 'arolla/memory/memory_allocation.h'],
  [('layout arithmetic', 'arolla/memory/frame.h: FrameLayout::Builder'), ('construction and destruction', 'arolla/memory/frame.h: FrameLayout::FieldInitializers, FieldFactory'), ('ownership', 'arolla/memory/memory_allocation.h: MemoryAllocation')],
  technique='abstract interpretation with symbolic sizes, offsets and addresses (congruences modulo 16)',
  note='Every operation is interpreted from every abstract state (size 16q+r for every r, every alignment, every shape of the initializer tables with up to two types), which is inductive over sequences of slots. '
       'The table shapes and the number of blocks (up to 3) are small-scope bounds. Trusts the models of the standard containers and of placement new.')

P('V01', 'Typed values are stored, counted and accessed as their type says',
  'A typed value keeps its object in aligned storage of its own, constructed exactly once from its source; copies of the handle share it, and it is destroyed and freed exactly once, when the last handle goes (moved-from and self-assigned handles included). '
  'Building a compound value from fields rejects a wrong number or types of fields and otherwise copies each field to its own place. Reading a value, reference or slot as a C++ type, or copying it into a slot, fails with an error if the type does not match and otherwise leads to exactly the '
  'bytes of that value; resetting a slot destroys and re-initialises exactly that slot.',
  ['inputs', 'histories'], 'all types, offsets and alignments; all histories of copies, moves and assignments of handles',
  'A wrong offset, a lost count or a missing type test is silent memory corruption for the types and orders that no test samples.',
  ['arolla/qtype/typed_value.h', 'arolla/qtype/typed_value.cc', 'arolla/qtype/typed_ref.h', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/typed_slot.h', 'arolla/qtype/typed_slot.cc'],
  [('ownership', 'arolla/qtype/typed_value.h: TypedValue'), ('storage', 'arolla/qtype/typed_value.cc: AllocRawImpl, FromFields'), ('typed access', 'arolla/qtype/typed_ref.h: As; arolla/qtype/typed_slot.h: ToSlot, CopyTo, Reset')],
  technique='abstract interpretation over a symbolic heap (ownership typestate, affine addresses)',
  note='Handles are interpreted in every shape of two handles over up to two values with up to two other owners. Compound values with up to three fields. Trusts the reference count (U02) and the frame layout (M01).')
