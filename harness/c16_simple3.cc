#define STRATEGY SimpleSurrogateStrategy
#define ACM false
#define SCRIPTED scripted_simple
#define OFF off_simple
#define GPT GP3
#include "c16_part.hpp"
