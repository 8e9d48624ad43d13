// Entry point and allocation cap shared by every harness.
#include "pbt.hpp"

namespace
{
void* CappedAlloc(const size_t size, const size_t align)
{
  if (size > pbt::AllocationCap()) { throw std::bad_alloc(); }
  void* p = nullptr;
  if (align <= alignof(std::max_align_t)) { p = std::malloc(size ? size : 1); }
  else
  {
    p = std::aligned_alloc(align, ((size + align - 1) / align) * align);
  }
  if (p == nullptr) { throw std::bad_alloc(); }
  return p;
}
}  // namespace

void* operator new(size_t size) { return CappedAlloc(size, 1); }
void* operator new[](size_t size) { return CappedAlloc(size, 1); }
void* operator new(size_t size, std::align_val_t a)
{
  return CappedAlloc(size, static_cast<size_t>(a));
}
void* operator new[](size_t size, std::align_val_t a)
{
  return CappedAlloc(size, static_cast<size_t>(a));
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }

int main(int argc, char** argv) { return pbt::Main(argc, argv); }
