// Places that execute a trace macro; the sources with them are written by checks/c14.py.
#pragma once
struct Site { const char* kind; void (*run)(long); };
// What the source says at this place: called by it before the macro.
void expect(const char* name, const char* series);
struct Program { const Site* sites; int n; };
extern const Program program1, program2;
