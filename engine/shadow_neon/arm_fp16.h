/* stand-in, see arm_neon.h */
