for id in "$@"; do /tmp/plant.sh $id notest; done
