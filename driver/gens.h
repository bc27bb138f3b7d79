#ifndef DRV_GENS_H
#define DRV_GENS_H
#include "core.h"
// Functors and generators, parsed from a prefix notation; desc receives the same as a JSON term.
//   const | uni N K (N/2^K) | disp D | alt | sin A FN FK PH | cos A FN FK PH (phase in degrees)
//   rint A B | rdbl A B | nint F A B | ndbl F A B
Functor* functor(Ctx& c, Args& a, std::string* desc);
//   xy F F | x F | y F
PointGenerator generator(Ctx& c, Args& a, std::string* desc = nullptr);
#endif
