// C29 Optional and tagged-union values never mix up what they hold
#include "pbt.hpp"

#include <array>

#include <common_robotics_utilities/maybe.hpp>

namespace cru = common_robotics_utilities;

namespace
{
// Every live payload by address; copies and moves may fail after a countdown.
struct Ledger
{
  std::set<const void*> live;
  int64_t countdown = -1;
  std::string broken;
  size_t failures = 0;

  void Born(const void* p) { if (!live.insert(p).second && broken.empty()) { broken = "an object was constructed on top of a live one"; } }
  void Died(const void* p) { if (live.erase(p) != 1 && broken.empty()) { broken = "an object was destroyed that was not alive"; } }
  void Use(const void* p) { if (live.count(p) != 1 && broken.empty()) { broken = "an object was used that was not alive"; } }
  void MayFail()
  {
    if (countdown < 0) { return; }
    if (countdown == 0) { countdown = -1; failures++; throw std::bad_alloc(); }
    countdown--;
  }
};

Ledger ledger;

// Tells apart payloads of the two alternatives and how they can be carried over.
enum class Moves { SAFELY, MAY_FAIL, COPIES, ONLY };

template<int Tag, Moves How, size_t Alignment = 8, size_t Filler = 8>
struct alignas(Alignment) Payload
{
  std::array<char, Filler> filler{};
  int64_t value = 0;
  std::unique_ptr<int64_t> heap;  // sanitizers notice misuse

  explicit Payload(const int64_t v) : value(v), heap(new int64_t(v)) { ledger.Born(this); }
  Payload(const Payload& other) : value(other.value)
  {
    ledger.Use(&other);
    ledger.MayFail();
    if (other.heap) { heap.reset(new int64_t(*other.heap)); }
    ledger.Born(this);
  }
  Payload(Payload&& other) noexcept(How == Moves::SAFELY) : value(other.value)
  {
    ledger.Use(&other);
    if (How != Moves::SAFELY) { ledger.MayFail(); }
    heap = std::move(other.heap);
    other.value = -1;
    ledger.Born(this);
  }
  Payload& operator=(const Payload& other)
  {
    ledger.Use(this);
    ledger.Use(&other);
    ledger.MayFail();
    if (this != &other) { value = other.value; heap.reset(other.heap ? new int64_t(*other.heap) : nullptr); }
    return *this;
  }
  Payload& operator=(Payload&& other) noexcept(How == Moves::SAFELY)
  {
    ledger.Use(this);
    ledger.Use(&other);
    if (How != Moves::SAFELY) { ledger.MayFail(); }
    if (this != &other) { value = other.value; heap = std::move(other.heap); other.value = -1; }
    return *this;
  }
  ~Payload() { ledger.Died(this); }

  bool Sound() const { return value == -1 ? true : heap != nullptr && *heap == value; }
};

// Copied in place of moved.
template<int Tag>
struct Copied
{
  int64_t value;
  std::unique_ptr<int64_t> heap;
  explicit Copied(const int64_t v) : value(v), heap(new int64_t(v)) { ledger.Born(this); }
  Copied(const Copied& other) : value(other.value) { ledger.Use(&other); ledger.MayFail(); heap.reset(new int64_t(*other.heap)); ledger.Born(this); }
  Copied& operator=(const Copied& other) { ledger.Use(this); ledger.Use(&other); ledger.MayFail(); value = other.value; *heap = *other.heap; return *this; }
  ~Copied() { ledger.Died(this); }
  bool Sound() const { return *heap == value; }
};

// Cannot be assigned.
template<int Tag>
struct Fixed
{
  const int64_t value;
  const std::unique_ptr<int64_t> heap;
  explicit Fixed(const int64_t v) : value(v), heap(new int64_t(v)) { ledger.Born(this); }
  Fixed(const Fixed& other) : value(other.value), heap((ledger.MayFail(), new int64_t(*other.heap))) { ledger.Use(&other); ledger.Born(this); }
  Fixed& operator=(const Fixed&) = delete;
  ~Fixed() { ledger.Died(this); }
  bool Sound() const { return *heap == value; }
};

template<typename T> using Maybe = cru::OwningMaybe<T>;

// What the model knows of a value: nothing held, a number held, or a value that was moved away from.
struct Known
{
  bool held = false;
  bool moved = false;
  int64_t value = 0;
};

template<typename T>
void CheckAgainst(const Maybe<T>& maybe, const Known& known, const char* after)
{
  PBT_CHECK("ledger", ledger.broken.empty(), after, ": ", ledger.broken);
  PBT_CHECK("has-value", maybe.HasValue() == static_cast<bool>(maybe), after, ": HasValue and bool differ");
  if (known.moved && !maybe.HasValue()) { return; }
  PBT_CHECK("has-value", maybe.HasValue() == known.held, after, ": HasValue is ", maybe.HasValue());
  PBT_CHECK("access", pbt::ThrowsA<std::runtime_error>([&] { maybe.Value(); }) != known.held, after, ": access to ", known.held ? "a value was rejected" : "nothing was accepted");
  PBT_CHECK("access", pbt::ThrowsA<std::runtime_error>([&] { const_cast<Maybe<T>&>(maybe).Value(); }) != known.held, after, ": access to ", known.held ? "a value was rejected" : "nothing was accepted");
  if (!known.held) { return; }
  ledger.Use(std::addressof(maybe.Value()));
  PBT_CHECK("ledger", ledger.broken.empty(), after, ": ", ledger.broken);
  PBT_CHECK("aligned", reinterpret_cast<uintptr_t>(std::addressof(maybe.Value())) % alignof(T) == 0, after, ": the value is not aligned to ", alignof(T));
  if (known.moved) { return; }
  PBT_CHECK("value", maybe.Value().value == known.value && maybe.Value().Sound(), after, ": the value is ", maybe.Value().value, ", expected ", known.value);
  PBT_CHECK("one-value", std::addressof(maybe.Value()) == std::addressof(const_cast<Maybe<T>&>(maybe).Value()), after, ": const and mutable access reach different values");
}

template<typename T, bool COPYABLE, bool KEEPS>
void History(pbt::Src& src, pbt::Ctx& ctx)
{
  ledger = Ledger();
  int64_t next = 1;
  const size_t length = src.Size(3, 40);
  size_t interesting = 0;
  {
    std::vector<std::unique_ptr<Maybe<T>>> slots;
    std::vector<Known> known;
    const auto pick = [&] { return static_cast<size_t>(src.Choose(slots.size() - 1)); };
    const auto moved_from = [&] (Known k) { if (KEEPS) { return k; } if (k.held) { k.moved = true; } return k; };
    for (size_t step = 0; step < length; step++)
    {
      // One construction of a payload in a few fails.
      const bool faulty = src.Bool(1, 4);
      const int64_t after = static_cast<int64_t>(src.Choose(2));
      const uint64_t op = slots.empty() ? src.Choose(2) : src.Weighted({2, 2, 2, 2, 1, 5, 4, 3, 2, 2, 2, 1});
      const char* name = "nothing";
      size_t target = slots.size();
      size_t source = slots.size();
      Known intended;
      bool creates = false;
      std::unique_ptr<Maybe<T>> made;
      const auto arm = [&] { ledger.countdown = faulty ? after : -1; };
      const auto number = [&] { return src.Bool(1, 8) ? std::numeric_limits<int64_t>::min() + next++ : next++; };
      bool failed = false;
      try
      {
        switch (op)
        {
          case 0: name = "default construction"; creates = true; made.reset(new Maybe<T>()); break;
          case 1:
          {
            name = "construction from a value";
            creates = true;
            intended = {true, false, number()};
            if constexpr (COPYABLE) { const T value(intended.value); arm(); made.reset(new Maybe<T>(value)); }
            else { T value(intended.value); arm(); made.reset(new Maybe<T>(std::move(value))); }
            break;
          }
          case 2:
          {
            name = "construction from a temporary";
            creates = true;
            intended = {true, false, number()};
            T value(intended.value);
            arm();
            made.reset(new Maybe<T>(std::move(value)));
            break;
          }
          case 3:
          {
            source = pick();
            creates = true;
            intended = known[source];
            if constexpr (COPYABLE) { name = "copy construction"; arm(); made.reset(new Maybe<T>(*slots[source])); source = slots.size(); }
            else { name = "move construction"; arm(); made.reset(new Maybe<T>(std::move(*slots[source]))); }
            break;
          }
          case 4:
            name = "move construction";
            source = pick();
            creates = true;
            intended = known[source];
            arm();
            made.reset(new Maybe<T>(std::move(*slots[source])));
            break;
          case 5:
            target = pick();
            source = pick();
            intended = known[source];
            if constexpr (COPYABLE) { name = "copy assignment"; arm(); *slots[target] = *slots[source]; source = slots.size(); }
            else { name = "move assignment"; arm(); *slots[target] = std::move(*slots[source]); }
            break;
          case 6:
            name = "move assignment";
            target = pick();
            source = pick();
            intended = known[source];
            arm();
            *slots[target] = std::move(*slots[source]);
            break;
          case 7:
          {
            name = "assignment of a temporary";
            target = pick();
            intended = {true, false, number()};
            Maybe<T> temporary((T(intended.value)));
            arm();
            *slots[target] = std::move(temporary);
            break;
          }
          case 8: name = "assignment of nothing"; target = pick(); arm(); *slots[target] = Maybe<T>(); break;
          case 9: name = "reset"; target = pick(); arm(); slots[target]->Reset(); break;
          case 10:
          {
            name = "assignment to itself";
            target = pick();
            intended = known[target];
            Maybe<T>& same = *slots[target];
            arm();
            if constexpr (COPYABLE) { if (src.Bool()) { *slots[target] = same; break; } }
            *slots[target] = std::move(same);
            break;
          }
          default:
          {
            name = "destruction";
            const size_t gone = pick();
            slots.erase(slots.begin() + static_cast<std::ptrdiff_t>(gone));
            known.erase(known.begin() + static_cast<std::ptrdiff_t>(gone));
            ledger.countdown = -1;
            PBT_CHECK("ledger", ledger.broken.empty(), name, ": ", ledger.broken);
            break;
          }
        }
      }
      catch (const std::bad_alloc&) { failed = true; }
      ledger.countdown = -1;
      ctx << name << (failed ? " (failed); " : "; ");
      PBT_CHECK("ledger", ledger.broken.empty(), name, failed ? " that failed" : "", ": ", ledger.broken);
      if (op > 10) { continue; }
      if (failed)
      {
        interesting++;
        // Moving a value whose moves cannot fail cannot fail either.
        const bool moves = op == 2 || op == 4 || op == 6 || op == 7 || op == 8 || op == 9;
        PBT_CHECK("moves", !(moves && std::is_nothrow_move_constructible<T>::value && !std::is_const<T>::value), name, " failed although moves do not");
        // Whatever took part holds what it held or nothing.
        for (const size_t touched : {target, source})
        {
          if (touched >= slots.size()) { continue; }
          if (!slots[touched]->HasValue()) { known[touched] = Known(); }
          else
          {
            PBT_CHECK("failed", known[touched].held, name, " failed and left a value where there was none");
            if (touched == source) { known[touched] = moved_from(known[touched]); }
            else if (op == 10 && slots[touched]->Value().value == -1) { known[touched].moved = true; }
          }
        }
      }
      else if (creates)
      {
        if (source < slots.size()) { known[source] = moved_from(known[source]); }
        slots.push_back(std::move(made));
        known.push_back(intended);
      }
      else if (target < slots.size())
      {
        if (source < slots.size() && source != target) { known[source] = moved_from(known[source]); }
        known[target] = intended;
      }
      size_t held = 0;
      for (size_t i = 0; i < slots.size(); i++)
      {
        CheckAgainst<T>(*slots[i], known[i], name);
        held += slots[i]->HasValue() ? 1 : 0;
      }
      // Nothing is alive but what is held.
      PBT_CHECK("leak", ledger.live.size() == held, name, ": ", ledger.live.size(), " objects are alive, ", held, " are held");
    }
  }
  PBT_CHECK("ledger", ledger.broken.empty(), "at the end: ", ledger.broken);
  PBT_CHECK("leak", ledger.live.empty(), ledger.live.size(), " objects outlived their holders");
  if (interesting > 0) { ctx.Nontrivial(); }
}
}  // namespace

PROP(Histories, "a construction of the held value failed during the history", 20000, 800000)
{
  switch (src.Choose(8))
  {
    case 6: ctx.Label("large"); History<Payload<0, Moves::SAFELY, 8, 1000>, true, false>(src, ctx); break;
    case 7: ctx.Label("very large"); History<Payload<0, Moves::SAFELY, 8, 100000>, true, false>(src, ctx); break;
    case 8: ctx.Label("large, moves may fail"); History<Payload<0, Moves::MAY_FAIL, 8, 5000>, true, false>(src, ctx); break;
    case 0: ctx.Label("safe moves"); History<Payload<0, Moves::SAFELY>, true, false>(src, ctx); break;
    case 1: ctx.Label("moves may fail"); History<Payload<0, Moves::MAY_FAIL>, true, false>(src, ctx); break;
    case 2: ctx.Label("copies only"); History<Copied<0>, true, true>(src, ctx); break;
#ifndef PBT_LENIENT
    case 3: ctx.Label("unassignable"); History<Fixed<0>, true, true>(src, ctx); break;
#endif
    case 4: ctx.Label("constant"); History<const Payload<0, Moves::SAFELY>, true, false>(src, ctx); break;
    default: ctx.Label("aligned"); History<Payload<0, Moves::MAY_FAIL, 64>, true, false>(src, ctx); break;
  }
}

namespace
{
struct MoveOnly
{
  int64_t value;
  std::unique_ptr<int64_t> heap;
  explicit MoveOnly(const int64_t v) : value(v), heap(new int64_t(v)) { ledger.Born(this); }
  MoveOnly(const MoveOnly&) = delete;
  MoveOnly(MoveOnly&& other) : value(other.value) { ledger.Use(&other); ledger.MayFail(); heap = std::move(other.heap); other.value = -1; ledger.Born(this); }
  ~MoveOnly() { ledger.Died(this); }
  bool Sound() const { return value == -1 || *heap == value; }
};

// A value with optional parts of its own kind.
struct Tree
{
  Payload<7, Moves::SAFELY> root;
  std::vector<Maybe<Tree>> parts;
  explicit Tree(const int64_t v) : root(v) {}
};

int64_t Sum(const Maybe<Tree>& tree)
{
  if (!tree.HasValue()) { return 0; }
  int64_t out = tree.Value().root.value;
  for (const auto& part : tree.Value().parts) { out = out * 31 + Sum(part); }
  return out;
}

Maybe<Tree> Grow(pbt::Src& src, const int depth, int64_t& next)
{
  if (src.Bool(1, 5)) { return Maybe<Tree>(); }
  Tree out(next++);
  const size_t n = depth > 0 ? src.Size(0, 3) : 0;
  for (size_t i = 0; i < n; i++) { out.parts.push_back(Grow(src, depth - 1, next)); }
  return Maybe<Tree>(std::move(out));
}
}  // namespace

#ifndef PBT_LENIENT
PROP(MoveOnlyValues, "a construction of the held value failed during the history", 6000, 200000) { History<MoveOnly, false, false>(src, ctx); }
#endif

// A value may be replaced by a part of itself.
PROP(Parts, "a value is replaced by a value that it contains", 6000, 200000)
{
  ledger = Ledger();
  {
    int64_t next = 1;
    Maybe<Tree> tree = Grow(src, 3, next);
    Maybe<Tree> spare = tree;
    int depth = 0;
    while (tree.HasValue() && !tree.Value().parts.empty() && depth < 4)
    {
      const size_t i = static_cast<size_t>(src.Choose(tree.Value().parts.size() - 1));
      const int64_t expected = Sum(tree.Value().parts[i]);
      const bool held = tree.Value().parts[i].HasValue();
      const bool moves = src.Bool();
      ctx << (moves ? "move" : "copy") << " part " << i << " of " << tree.Value().parts.size() << "; ";
      if (moves) { tree = std::move(tree.Value().parts[i]); }
      else { const Maybe<Tree>& part = tree.Value().parts[i]; tree = part; }
      PBT_CHECK("ledger", ledger.broken.empty(), ledger.broken);
      PBT_CHECK("part", tree.HasValue() == held && Sum(tree) == expected, "the part is ", Sum(tree), ", expected ", expected);
      if (held) { ctx.Nontrivial(); }
      depth++;
    }
    // A copy is independent.
    const int64_t before = Sum(spare);
    if (tree.HasValue()) { tree.Value().root.value = 0; tree.Value().parts.clear(); }
    tree.Reset();
    PBT_CHECK("independent", Sum(spare) == before, "a copy changed along");
  }
  PBT_CHECK("ledger", ledger.broken.empty() && ledger.live.empty(), ledger.broken, " ", ledger.live.size(), " objects outlived their holders");
}

namespace
{
using A = Payload<1, Moves::MAY_FAIL, 8, 700>;
using B = Copied<2>;
using Union = cru::internal::TaggedUnion<A, B>;
}

PROP(Unions, "both alternatives were held and a construction failed", 12000, 500000)
{
  ledger = Ledger();
  int64_t next = 1;
  bool had_a = false;
  bool had_b = false;
  bool failed_once = false;
  {
    struct Model { int alternative = 0; bool moved = false; int64_t value = 0; };  // 1: first, 2: second, 0: neither
    std::vector<std::unique_ptr<Union>> slots;
    std::vector<Model> model;
    const size_t length = src.Size(3, 30);
    for (size_t step = 0; step < length; step++)
    {
      const bool faulty = src.Bool(1, 4);
      const int64_t after = static_cast<int64_t>(src.Choose(2));
      const auto arm = [&] { ledger.countdown = faulty ? after : -1; };
      const uint64_t op = slots.empty() ? src.Choose(3) : src.Choose(8);
      size_t target = slots.size();
      size_t source = slots.size();
      Model intended;
      std::unique_ptr<Union> made;
      bool failed = false;
      const char* name = "";
      const auto pick = [&] { return static_cast<size_t>(src.Choose(slots.size() - 1)); };
      try
      {
        switch (op)
        {
          case 0: { name = "copy of first"; intended = {1, false, next++}; const A a(intended.value); arm(); made.reset(new Union(a)); break; }
          case 1: { name = "move of first"; intended = {1, false, next++}; A a(intended.value); arm(); made.reset(new Union(std::move(a))); break; }
          case 2: { name = "copy of second"; intended = {2, false, next++}; const B b(intended.value); arm(); made.reset(new Union(b)); break; }
          case 3: { name = "move of second"; intended = {2, false, next++}; B b(intended.value); arm(); made.reset(new Union(std::move(b))); break; }
          case 4: name = "copy construction"; { const size_t from = pick(); intended = model[from]; const Union& other = *slots[from]; arm(); made.reset(new Union(other)); } break;
          case 5: name = "move construction"; source = pick(); intended = model[source]; arm(); made.reset(new Union(std::move(*slots[source]))); break;
          case 6: name = "copy assignment"; target = pick(); { const size_t from = pick(); intended = model[from]; const Union& other = *slots[from]; arm(); *slots[target] = other; } break;
          case 7: name = "move assignment"; target = pick(); source = pick(); intended = model[source]; arm(); *slots[target] = std::move(*slots[source]); break;
          default: name = "destruction"; { const size_t gone = pick(); slots.erase(slots.begin() + static_cast<std::ptrdiff_t>(gone)); model.erase(model.begin() + static_cast<std::ptrdiff_t>(gone)); } break;
        }
      }
      catch (const std::bad_alloc&) { failed = true; failed_once = true; }
      ledger.countdown = -1;
      ctx << name << (failed ? " (failed); " : "; ");
      PBT_CHECK("ledger", ledger.broken.empty(), name, failed ? " that failed" : "", ": ", ledger.broken);
      const auto from = [&] { if (source < slots.size() && source != target && model[source].alternative == 1) { model[source].moved = true; } };
      if (failed)
      {
        from();
        if (target < slots.size() && slots[target]->type_ != Union::TYPE_A && slots[target]->type_ != Union::TYPE_B) { model[target].alternative = 0; }
      }
      else if (made) { from(); slots.push_back(std::move(made)); model.push_back(intended); }
      else if (target < slots.size()) { from(); model[target] = intended; }
      size_t held = 0;
      for (size_t i = 0; i < slots.size(); i++)
      {
        const Union& u = *slots[i];
        const int alternative = u.type_ == Union::TYPE_A ? 1 : (u.type_ == Union::TYPE_B ? 2 : 0);
        PBT_CHECK("alternative", alternative == model[i].alternative, name, ": holds alternative ", alternative, ", expected ", model[i].alternative);
        if (alternative == 1)
        {
          ledger.Use(&u.value_a_);
          had_a = true;
          held++;
          PBT_CHECK("value", model[i].moved || (u.value_a_.value == model[i].value && u.value_a_.Sound()), name, ": the value is ", u.value_a_.value, ", expected ", model[i].value);
        }
        if (alternative == 2)
        {
          ledger.Use(&u.value_b_);
          had_b = true;
          held++;
          PBT_CHECK("value", u.value_b_.value == model[i].value && u.value_b_.Sound(), name, ": the value is ", u.value_b_.value, ", expected ", model[i].value);
        }
      }
      PBT_CHECK("ledger", ledger.broken.empty(), name, ": ", ledger.broken);
      PBT_CHECK("leak", ledger.live.size() == held, name, ": ", ledger.live.size(), " objects are alive, ", held, " are held");
    }
  }
  PBT_CHECK("ledger", ledger.broken.empty() && ledger.live.empty(), ledger.broken, " ", ledger.live.size(), " objects outlived their holders");
  if (had_a && had_b && failed_once) { ctx.Nontrivial(); }
}

namespace
{
template<typename Object>
void BorrowedHistory(pbt::Src& src, pbt::Ctx& ctx)
{
  std::deque<Object> objects;
  for (size_t i = 0; i < 4; i++) { objects.push_back(Object(static_cast<int64_t>(i))); }
  const std::deque<int64_t> frozen = {7, 8};
  std::vector<cru::ReferencingMaybe<Object>> slots;
  std::vector<int> model;  // index of the object, or -1
  std::set<int> seen;
  bool changed = false;
  const size_t length = src.Size(2, 30);
  for (size_t step = 0; step < length; step++)
  {
    const int object = static_cast<int>(src.Choose(3));
    const uint64_t op = slots.empty() ? src.Choose(1) : src.Choose(8);
    const size_t a = slots.empty() ? 0 : static_cast<size_t>(src.Choose(slots.size() - 1));
    const size_t b = slots.empty() ? 0 : static_cast<size_t>(src.Choose(slots.size() - 1));
    ctx << op << " ";
    switch (op)
    {
      case 0: slots.emplace_back(); model.push_back(-1); break;
      case 1: slots.emplace_back(objects[static_cast<size_t>(object)]); model.push_back(object); break;
      case 2: { const auto copy = slots[a]; slots.push_back(copy); model.push_back(model[a]); break; }
      case 3: slots[a] = slots[b]; model[a] = model[b]; break;
      case 4: { auto moved = std::move(slots[b]); slots[a] = moved; slots[b] = std::move(moved); const int m = model[b]; model[a] = m; model[b] = m; break; }
      case 5: slots[a] = cru::ReferencingMaybe<Object>(objects[static_cast<size_t>(object)]); model[a] = object; break;
      case 6: slots[a].Reset(); model[a] = -1; break;
      case 7: if (model[a] >= 0) { slots[a].Value() += 100; changed = true; } break;
      default: objects[static_cast<size_t>(object)] -= 7; break;
    }
    for (size_t i = 0; i < slots.size(); i++)
    {
      const cru::ReferencingMaybe<Object>& maybe = slots[i];
      PBT_CHECK("has-value", maybe.HasValue() == (model[i] >= 0) && static_cast<bool>(maybe) == maybe.HasValue(), "HasValue is ", maybe.HasValue());
      PBT_CHECK("access", pbt::ThrowsA<std::runtime_error>([&] { maybe.Value(); }) == (model[i] < 0) && pbt::ThrowsA<std::runtime_error>([&] { slots[i].Value(); }) == (model[i] < 0), "access to nothing was accepted, or to a value rejected");
      if (model[i] < 0) { continue; }
      seen.insert(model[i]);
      PBT_CHECK("object", &maybe.Value() == &objects[static_cast<size_t>(model[i])] && &slots[i].Value() == &maybe.Value(), "another object than the one given");
    }
  }
  // An object whose & says something else.
  struct Odd { int64_t value; Odd* operator&() { return nullptr; } const Odd* operator&() const { return nullptr; } };
  Odd odd{static_cast<int64_t>(model.size())};
  cru::ReferencingMaybe<Odd> odd_maybe(odd);
  PBT_CHECK("object", odd_maybe.HasValue() && std::addressof(odd_maybe.Value()) == std::addressof(odd), "another object than the one given");
  cru::OwningMaybe<Odd> owned(odd);
  owned = owned;
  PBT_CHECK("object", owned.HasValue() && owned.Value().value == odd.value, "another value than the one given");
  cru::ReferencingMaybe<const int64_t> constant(frozen[0]);
  PBT_CHECK("object", &constant.Value() == &frozen[0], "another object than the one given");
  constant = cru::ReferencingMaybe<const int64_t>(frozen[1]);
  PBT_CHECK("object", &constant.Value() == &frozen[1], "another object than the one given");
  if (seen.size() >= 2 && changed) { ctx.Nontrivial(); }
}

struct Large
{
  std::array<int64_t, 40> filler{};
  int64_t value;
  explicit Large(const int64_t v) : value(v) {}
  Large(const Large&) = delete;
  Large(Large&&) = default;
  Large& operator+=(const int64_t by) { value += by; return *this; }
  Large& operator-=(const int64_t by) { value -= by; return *this; }
};
}  // namespace

// A borrowed value is the very object that was given.
PROP(Borrowed, "at least two objects were borrowed and one changed", 8000, 200000)
{
  if (src.Bool(2, 3)) { BorrowedHistory<int64_t>(src, ctx); }
  else { BorrowedHistory<Large>(src, ctx); }
}
