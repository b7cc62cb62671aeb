#include "main.inc"
