// C39: tasks of the modelling framework that run at the same time
#define main main_of_c36
#include "c36.cpp"
#undef main

int main(int argc, char** argv)
{
    vh::free_running = true;
    return vh::run_tests(argc, argv);
}
