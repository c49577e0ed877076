#define GIT_SHA "4c25be6"
