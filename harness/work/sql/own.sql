SELECT 1;
