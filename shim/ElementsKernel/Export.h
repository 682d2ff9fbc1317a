#pragma once
#define ELEMENTS_API
