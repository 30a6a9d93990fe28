// The library in one build configuration, behind plain functions (the types are the driver's, every build has the same layouts).
#pragma once
struct V23 {
  const char *name;
  void *(*make)();
  void (*drop)(void *);
  void (*factorize)(void *, const void *fact, const void *coo, void *call);
  void (*clear)(void *);
  void (*query)(void *, void *queries);
  void (*apply)(void *, const void *fact, const void *coo, const void *op, void *out);
};
