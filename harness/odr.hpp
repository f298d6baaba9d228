// C25: a program made of several translation units, each with its own idea of the default registry.
#pragma once
struct Unit { void (*handle)(); void (*init)(); void (*fini)(); int (*call)(int); Unit* next; };
extern Unit* units; // those of the program
void received(bool odr); // an error was received
