#define STRATEGY ACMSurrogateStrategy
#define ACM true
#define SCRIPTED scripted_acm
#define OFF off_acm
#define GPT GP0
#include "c16_part.hpp"
