#include <stdint.h>
typedef struct { volatile uint32_t CTRL, LOAD, VAL, CALIB; } SysTick_Type;
extern SysTick_Type vf_systick;
#define SysTick (&vf_systick)
#define __NOP()
