/********************************************************************************************
* Hardware-based random number generation function
*
* It uses /dev/urandom in Unix-like OSs and CNG's BCryptGenRandom function in Windows
*********************************************************************************************/ 

#include "random.h"
#include <stdlib.h>
#if defined(WINDOWS)
    #include <windows.h>
    #include <bcrypt.h>
#elif defined(NIX)
    #include <unistd.h>
    #include <fcntl.h>
    static int lock = -1;
#endif

#define passed 0 
#define failed 1
#define MAX_CHUNK 0x40000000    // largest single request to the operating system


static __inline void delay(unsigned int count)
{
    while (count--) {}
}


int randombytes(unsigned char* random_array, unsigned long long nbytes)
{ // Generation of "nbytes" of random values
    
#if defined(WINDOWS)   
    while (nbytes > 0) {
        unsigned long n = (nbytes > MAX_CHUNK) ? MAX_CHUNK : (unsigned long)nbytes;
        if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, n, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
            return failed;
        }
        random_array += n;
        nbytes -= n;
    }

#elif defined(NIX)
    int r, n;
    
    if (lock == -1) {
        do {
            lock = open("/dev/zero", O_RDONLY);
            if (lock == -1) {
                delay(0xFFFFF);
            }
        } while (lock == -1);
    }

    while (nbytes > 0) {
        n = (nbytes > MAX_CHUNK) ? MAX_CHUNK : (int)nbytes;
        do {
            r = read(lock, random_array, n);
            if (r == -1) {
                delay(0xFFFF);
            }
        } while (r == -1);
        random_array += r;
        nbytes -= r;
    }
#endif

    return passed;
}