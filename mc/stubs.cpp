// the code prints its progress; a check has no use for that
#include "src/etc/types.h"
#include <string>
void print(Mat) {}
void print(double) {}
void print(std::string) {}
